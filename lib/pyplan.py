"""Configuration files for the Python interface: a nested dict written as JSON (which is YAML)."""
import json
EFF = ["rf", "lf", "rh", "lh"]
SOLVER = dict(BnB_verbose=False, BnB_max_iterations=100, BnB_integer_tolerance=1e-4, BnB_absolute_suboptimality_gap=1e-3, BnB_relative_suboptimality_gap=1e-6,
              feasibility_tolerance=1e-7, absolute_suboptimality_gap=1e-7, relative_suboptimality_gap=1e-6, feasibility_tolerance_inaccurate=1e-4, absolute_suboptimality_gap_inaccurate=5e-5,
              relative_suboptimality_gap_inaccurate=5e-5, equil_iterations=3, scaling_factor=1.0, equil_upper_bound=1e3, equil_lower_bound=1e-3, dyn_reg_thresh=1e-13, lin_sys_accuracy=1e-14,
              err_reduction_factor=6.0, num_iter_ref_lin_solve=9, static_regularization=7e-8, dynamic_regularization=2e-7, cg_step_rate=2.0, cg_full_precision=1e-9, cg_residual_bound=1e-18,
              cg_reduced_precision=.1, safeguard=500.0, min_step_length=1e-6, max_step_length=.999, min_centering_step=1e-4, max_centering_step=1.0, step_length_scaling=.99, over_relaxation=1.5,
              optinfo_interval=100, converged_interval=20, consensus_penalty=1e-3, verbose=False, warm_start=False, max_iters=100, ipsolver_max_iters=100, conicsolver_max_iters=300,
              conicsolver_warm_iters=300, ipsolver_warm_iters=50, num_itrefs_trustregion=2, trust_region_threshold=.05, soft_constraint_weight_full=1e4, soft_constraint_weight_reduced=1e4)


def config(contacts=((), (), (), ()), ini=None, dofs=8, **over):
    """contacts: per effector a list of (start, end, position, quaternion wxyz, type); ini: overrides of the initial state"""
    z = [0., 0., 0.]
    state = {"com": [0., 0., .3], "lmom": z, "amom": z, "eef_ctrl": {"eef_frc_" + e: [0., 0., .25] for e in EFF},
             "eef_pose": {"eef_" + e: [1., .2 * (-1) ** (i // 2), .1 * (-1) ** i, 0., 1., 0., 0., 0.] for i, e in enumerate(EFF)}}
    state.update(ini or {})
    p = dict(load_kinematics=False, num_dofs=dofs, kd_iterations=1, num_subsamples=1, display_motion=False, active_dofs=list(range(dofs)), min_joint_limits=[-3.2] * dofs, max_joint_limits=[3.2] * dofs,
             default_joint_positions=[.1] * dofs, use_second_order_inv_kin=False, max_trajectory_iters=1, max_convergence_iters=5, slacks_penalty=1e4, integration_step=.1, lambda_regularization=.01,
             convergence_tolerance=1e-3, heuristic="TrustRegion", n_act_eefs=4, time_step=.1, time_horizon=.5, external_force=z, com_displacement=z, num_com_viapoints=0, com_viapoints={"none": 0},
             max_time_iterations=10, max_time_residual_tolerance=1e-3, min_time_residual_improvement=0., time_range=[.01, .2], is_time_horizon_fixed=False, gravity=9.81, robot_mass=2.5,
             friction_coeff=.6, friction_cone="LinearCone", torque_range=[-100., 100.], min_rel_height=-50., floor_height=-1., max_eef_lengths=[10.] * 4, w_trq_arm=0., w_trq_leg=0., w_time=100., w_time_penalty=0.,
             store_data=False, use_default_solver_setting=False, swing_traj_via_z=.1, w_lin_mom_tracking=1., w_ang_mom_tracking=1., w_endeff_contact=1., w_endeff_tracking=10., p_endeff_tracking=10., p_com_tracking=10.,
             w_joint_regularization=.1, reg_orientation=1., reg_joint_position=2., num_joint_viapoints=0, num_base_viapoints=0, joint_viapoints={"none": 0}, base_viapoints={"none": 0},
             num_joint_viapoints_second=0, num_base_viapoints_second=0, joint_viapoints_second={"none": 0}, base_viapoints_second={"none": 0}, p_mom_tracking_second=[1.] * 6)
    for e in EFF: p["eff_offset_" + e] = z; p["cop_range_" + e] = [-.01, .01, -.01, .01]
    for k in "com lmom amom lmomd amomd com_via lmom_final amom_final com_track lmom_track amom_track frc_arm frc_leg dfrc_arm dfrc_leg kin_com kin_lmom kin_amom kin_lmomd kin_amomd kin_eff_pos kin_eff_pos_nonact kin_base_ori".split():
        p["w_" + k] = [1. if k.startswith("frc") else 0.] * 3
    for k in "swing_traj_via_z w_lin_mom_tracking w_ang_mom_tracking w_endeff_contact w_endeff_tracking p_endeff_tracking p_com_tracking w_joint_regularization d_endeff_tracking p_orient_tracking d_orient_tracking p_joint_regularization d_joint_regularization".split():
        p[k + "_second"] = 1.
    for k in ("w_kin_joint_vel", "w_kin_joint_acc", "w_kin_default_joints"): p[k] = [.1] * (dofs + 6)
    p.update({k: v for k, v in over.items() if k not in SOLVER})
    s = dict(SOLVER); s.update({k: v for k, v in over.items() if k in SOLVER})
    cp = {"effcnt_" + e: [[float(c[0]), float(c[1])] + [float(x) for x in c[2]] + [float(x) for x in (c[3] if len(c) > 3 else (1, 0, 0, 0))] + [float(c[4] if len(c) > 4 else 1), -1.] for c in contacts[i]] for i, e in enumerate(EFF)}
    return {"initial_robot_configuration": state, "contact_plan": cp, "planner_variables": p, "solver_variables": s, "terrain_description": {"empty": 0}}


def write(path, cfg):
    with open(path, "w") as f: json.dump(cfg, f, indent=1)
    return path
