"""planted changes to the Python parts (P18 ...)"""
from mkseed import *
PK = "momentumopt/python/momentumopt/kinoptpy/"
PSH = HEAD + '''export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 PYTHONPATH="$R/momentumopt/python:$D"
PY=/opt/vp/venv/bin/python; cd "$W"; timeout 200 "$PY" "$D/demo.py"
'''
H18 = '''import numpy as np, os
from scipy.spatial.transform import Rotation as Rot
from momentumopt.kinoptpy.lqr_gain_manifold import CentroidalLqr
def plan(N, act, w=(0, 0, 0), q=(0, 0, 0, 1), f=(0, 0, 20), m=(0, 0, 0)):
    D = dict(com=[[0, 0, .3]] * (N + 1), com_vel=[[0, 0, 0]] * (N + 1), quaternion=[q] * (N + 1), base_ang_velocities=[w] * (N + 1),
             centroidal_forces=[f] * (N + 1), centroidal_moments=[m] * (N + 1), contact_activation=act)
    for k, v in D.items(): np.savetxt("quadruped_%s.dat" % k, np.array([np.hstack((t, x)) for t, x in enumerate(v)]), fmt="%.17e")
    return CentroidalLqr(".")
def close(a, b, tol): assert np.abs(np.asarray(a) - np.asarray(b)).max() < tol, (a, b)
'''
def py(id, prop, needs, breaks, edits, body, head=H18): mk(id, prop, needs, breaks, edits, {"demo.py": head + body}, PSH)
G = PK + "lqr_gain_manifold.py"
py("p18-contact-age", "P18", "a contact of an effector other than the first one", "contacts of later effectors are taken for flight when the activation is summed",
   [(G, "s = np.sum(self.contact_plan[i,1:])", "s = np.sum(self.contact_plan[i,1:-1])")],
   '''s = plan(3, [[0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0], [1, 0, 0, 0]])
close(s.active_contacts, [1] * 4, 1e-9)
''')
py("p18-value-slope", "P18", "controls that are not at the minimum of the cost, several steps", "the slope of the value function drifts over the steps",
   [(G, "+ self.kff[t].dot(self.Qdudu[t]).dot(self.kfb[t])   ", "+ self.kff[t].dot(self.R[t]).dot(self.kfb[t])   ")],
   '''s = plan(4, [[1, 0, 0, 0]] * 5, f=(3, 0, 20), m=(0.1, 0, 0))
s.compute_gains()
for t in range(4):
    close(s.value_dx[t], s.Qdx[t] - s.Qdxdu[t] @ np.linalg.solve(s.Qdudu[t], s.Qdu[t]), 1e-8 * (1 + np.abs(s.value_dx[t]).max()))
''')

H21 = '''import sys, types, re, os, glob, numpy as np
pm = types.ModuleType("pymomentum"); sys.modules["pymomentum"] = pm
for f in glob.glob(os.path.join(os.environ["PYTHONPATH"].split(":")[0], "momentumopt/**/*.py"), recursive=True):
    for n in re.findall(r"\\bPlanner\\w+Param_\\w+", open(f, errors="replace").read()): setattr(pm, n, n)
w = types.ModuleType("momentumopt.robots.blmc_robot_wrapper"); w.QuadrupedWrapper = object; sys.modules[w.__name__] = w
import momentumopt.kinoptpy.momentum_kinematics_optimizer as mk
class O: pass
class S:
    def __init__(s, a, p): s.a, s.p = a, np.array(p, dtype=float)
    def effActivation(s, e): return s.a
    def eff(s, e): return s.p.copy()
def refs(acts, pos, z=.1, dt=.1):
    o = O(); o.dt, o.num_time_steps, o.eff_names, o.dynamic_sequence = dt, len(acts), ["A_ANKLE"], O(); o.dynamic_sequence.dynamics_states = [S(bool(a), p) for a, p in zip(acts, pos)]
    g = mk.EndeffectorTrajectoryGenerator(); g.z_offset = z; return g(o)
def via(n, at, val, init, end, dt=.1):
    g = mk.TrajectoryInterpolator(); g.num_time_steps, g.init, g.end = n, np.array([init]), np.array([end]); g.generate_trajectory(len(at), [np.array([a * dt, v]) for a, v in zip(at, val)], dt)
    return [float(np.ravel(g.evaluate_trajecory(t))[0]) for t in range(n)]
def close(a, b, tol): assert np.abs(np.asarray(a) - np.asarray(b)).max() < tol, (a, b)
'''
K = PK + "momentum_kinematics_optimizer.py"; J = PK + "min_jerk_traj.py"
py("p21-landing-height", "P21", "a step onto a higher or lower contact", "the middle of a swing is raised over the height of the landing, not of the lift-off",
   [(K, "via = self.z_offset + contact_plan[eff][i][2][idx]", "via = self.z_offset + contact_plan[eff][i+1][2][idx]")],
   '''P, V, C = refs([1, 1, 0, 0, 0, 1, 0], [(0, 0, 0)] * 4 + [(.1, 0, .05)] * 3); close(P[3, 0], [.05, 0, .1], 1e-6)
''', H21)
py("p21-third-viapoint", "P21", "three viapoints with different postures", "the motion to the third viapoint starts from the first one instead of the second",
   [(K, "poly = poly_points(t, q_via[i-1][j+1], q_via[i][j+1])", "poly = poly_points(t, q_via[0][j+1], q_via[i][j+1])")],
   '''q = via(9, [2, 4, 6], [1., 2., -1.], 0., .5); close(q[5], .5, 1e-6)
''', H21)
py("p21-early-end", "P21", "a last viapoint before the end of the plan", "the posture is back at its end one step early",
   [(K, "t = [q_via[i-1][0]/dt, self.num_time_steps]", "t = [q_via[i-1][0]/dt, self.num_time_steps - 1]")],
   '''q = via(8, [4], [1.], 0., 0.); close(q[6], .5, 1e-6)
''', H21)
py("p21-window-end", "P21", "two swings with one step of contact in between", "the step before a landing is taken from the contact",
   [(J, "and self.times[i][1] < t:", "and self.times[i][1] <= t + 1:")],
   '''P, V, C = refs([1, 0, 0, 1, 1, 0, 0, 0, 1, 1], [(0, 0, 0)] * 3 + [(1, 0, 0)] * 4 + [(3, 0, 0)] * 3); x = P[:, 0, 0]; s = np.arange(4) / 3.; close(x[:4], 10 * s**3 - 15 * s**4 + 6 * s**5, 1e-6); close(x[4], 1, 1e-6); close(x[8:], 3, 1e-6)
''', H21)
Q22 = open("/verif/lib/quad.py").read()
H22 = '''import sys, os, types, re, glob, numpy as np, pinocchio as pin
pm = types.ModuleType("pymomentum"); sys.modules["pymomentum"] = pm
N = types.SimpleNamespace
for f in glob.glob(os.path.join(os.environ["PYTHONPATH"].split(":")[0], "momentumopt/**/*.py"), recursive=True):
    for n in re.findall(r"\\bPlanner\\w+Param_\\w+", open(f, errors="replace").read()): setattr(pm, n, n)
class Seq:
    def resize(s, n, d): s.kinematics_states = [N(robot_posture=N(), robot_velocity=N()) for i in range(n)]
pm.KinematicsSequence = Seq
import quad; quad.stub()
import momentumopt.kinoptpy.momentum_kinematics_optimizer as mk
from momentumopt.kinoptpy.inverse_kinematics import PointContactInverseKinematics as IK
from momentumopt.kinoptpy.second_order_ik import SecondOrderInverseKinematics as IK2
m = quad.model(); d = m.createData(); q0 = quad.stance(m); names = [e + "_ANKLE" for e in ("FR", "FL", "HR", "HL")]
def feet(q): pin.framesForwardKinematics(m, d, q); return np.array([d.oMf[m.getFrameId(n)].translation for n in names])
def mom(q, v): return pin.computeCentroidalMomentum(m, d, q, v).vector.copy()
def com(q): return pin.centerOfMass(m, d, q).copy()
class State:
    def __init__(s, act, com, lmom, amom, pos): s.act, s.com, s.lmom, s.amom, s.pos = act, com, np.array(lmom, float), np.array(amom, float), pos
    def effActivation(s, e): return bool(s.act[e])
    def eff(s, e): return s.pos[e].copy()
    def effPosition(s, e): return s.pos[e].copy()
def motion(acts, dt=.1, lmom=(.1, 0, 0), **over):
    ps = dict(PlannerDoubleParam_TimeStep=dt, PlannerIntParam_NumTimesteps=len(acts), PlannerIntParam_NumDofs=8, PlannerVectorParam_KinematicDefaultJointPositions=q0[7:], PlannerDoubleParam_RobotWeight=quad.mass(m) * 9.81)
    k = mk.MomentumKinematicsOptimizer(); k.initialize(N(get=lambda key: ps[key]))
    for a, x in over.items(): setattr(k, a, x)
    c, f = com(q0), feet(q0); D = N(dynamics_states=[State(a, c + [.01 * t, 0, 0], lmom, (0, 0, .002 * t), f) for t, a in enumerate(acts)])
    k.optimize(State((1,) * 4, c, (0, 0, 0), (0, 0, 0), f), None, D); return k
'''
I, I2 = PK + "inverse_kinematics.py", PK + "second_order_ik.py"
def p22(id, needs, breaks, edits, body): mk(id, "P22", needs, breaks, edits, {"demo.py": H22 + body, "quad.py": Q22}, PSH)
p22("p22-air-momentum", "a flight phase in which the com is not where it should be", "the momentum in flight is changed to correct the com",
    [(I, "            self.mom_ref_air_phase[:3] = lmom_ref\n            self.mom_ref_air_phase[3:6] = amom_ref\n        self.vel_des[:3] = (lmom_ref + self.p_com_tracking * (com_ref - self.robot.com(q)))\n        self.vel_des[3:6] = amom_ref\n",
      "            self.mom_ref_air_phase[3:6] = amom_ref\n        self.vel_des[:3] = (lmom_ref + self.p_com_tracking * (com_ref - self.robot.com(q)))\n        self.vel_des[3:6] = amom_ref\n        if is_flight_phase:\n            self.mom_ref_air_phase[:3] = self.vel_des[:3]\n")],
    '''k = IK(m, names); lm, am = np.array([.2, 0, .1]), np.array([0, .01, 0])
x = k.compute(q0, np.zeros(m.nv), com(q0) + [.05, 0, 0], lm, am, feet(q0), np.zeros((4, 3)), np.zeros(4), None, True); e = mom(q0, x) - np.hstack((lm, am)); assert np.abs(e).max() < 1e-6, e
''')
p22("p22-old-posture", "a call without a posture reference after one with a reference", "the posture reference of the earlier call is used again",
    [(I, "        if joint_regularization_ref is None:\n            self.vel_des[(self.ne + 2) * 3:] = zero(self.nv - 6)\n        else:", "        if joint_regularization_ref is not None:")],
    '''a = (q0, np.zeros(m.nv), com(q0), np.zeros(3), np.zeros(3), feet(q0), np.zeros((4, 3)), np.ones(4)); x = IK(m, names).compute(*a, None)
k = IK(m, names); k.compute(*a, np.ones(8)); y = k.compute(*a, None); assert np.abs(x - y).max() < 1e-9, (x, y)
''')
p22("p22-flight-last-foot", "a step in which the last leg alone is in the air", "a step counts as flight when the last leg is lifted",
    [(K, "                    if self.dynamic_sequence.dynamics_states[it].effActivation(eff):\n                        is_flight_phase = False\n                        break\n                    else:\n                        is_flight_phase = True\n",
      "                    is_flight_phase = not self.dynamic_sequence.dynamics_states[it].effActivation(eff)\n")],
    '''k = motion([(1, 1, 1, 1), (1, 1, 1, 0), (1, 1, 1, 0), (1, 1, 1, 1)]); a = [np.array(s.lmom)[2] for s in k.kinematics_sequence.kinematics_states]; assert min(a) > -.2, a
''')
p22("p22-second-damping", "base turning while it should stay level", "the damping of the base is applied to its linear velocity",
    [(I2, "self.d_orient_tracking * dq[3:6])", "self.d_orient_tracking * dq[:3])")],
    '''k = IK2(m, names); v = np.zeros(m.nv); v[:6] = [.3, 0, 0, 0, .5, 0]; R = pin.Quaternion(np.eye(3))
def step(g): k.d_orient_tracking = g; k.update_kinematics(q0, v); k.update_des_acc(q0, v, com(q0), R, np.zeros(6), np.zeros(6), feet(q0), np.zeros((4, 3)), np.zeros((4, 3)), None); return k.desired_acceleration[3:6].copy()
e = step(2.) - step(0.) + 2 * v[3:6]; assert np.abs(e).max() < 1e-9, e
''')
p22("p22-spline-time", "a second order motion of more than two steps", "references of later steps are evaluated at a time that restarts each step",
    [(I2, "                t += inner_dt\n\n                self.update_kinematics(q, dq)\n", "                t = (it - 1) * dt + inner * inner_dt\n\n                self.update_kinematics(q, dq)\n")],
    '''k = motion([(1, 1, 1, 1)] * 4, .05, use_second_order_inv_kin=True); s = k.snd_order_inv_kin; times = []
old = s.step; s.step = lambda q, dq, c, *a: (times.append(float(c[0])), old(q, dq, c, *a))[1]
z = np.zeros((4, 3)); c = np.tile(com(q0), (4, 1)); c[:, 0] = np.arange(4.); s.solve(.05, q0, np.zeros(m.nv), c, z, z, np.tile(feet(q0), (4, 1, 1)), np.zeros((4, 4, 3)), np.ones((4, 4)), np.tile(q0[7:], (4, 1)), z)
e = np.array(times) - np.arange(150) * .02; assert np.abs(e).max() < 1e-6, e
''')

H23 = H21.split("import momentumopt.kinoptpy.momentum_kinematics_optimizer")[0].replace('w = types', '''for n in ("pybullet", "rospkg", "pysolver", "pysolverlqr", "momentumopt.robots.simulator"):
    m = types.ModuleType(n); m.Simulator = object; sys.modules[n] = m
w = types''') + '''NS = types.SimpleNamespace
import momentumopt.motion_execution as ex
import momentumopt.kinoptpy.create_data_file as cf
class Dyn:
    def __init__(s, t): s.t = t; s.com = np.array([t, 0., .2])
    def effNum(s): return 4
    def effForce(s, e): return np.array([e, 0., (.1 + e) * s.t * (e != 1)])
    def effPosition(s, e): return np.array([e, s.t, 0.])
def kin(t): return NS(com=np.array([t, 1., 2.]), lmom=np.array([9.81, t, t * t]), amom=np.array([t * t, 1., 1.]), robot_posture=NS(joint_positions=np.arange(8.) * t, generalized_joint_positions=np.hstack((t, 0, 0, 0, 0, 0, 1, np.arange(8.) * t))),
    robot_velocity=NS(joint_velocities=np.arange(8.) + t, generalized_joint_velocities=np.arange(14.) + t), robot_acceleration=NS(generalized_joint_accelerations=np.arange(14.) - t))
def motion(N): return NS(dynamics_states=[Dyn(t) for t in range(N)]), NS(kinematics_states=[kin(t) for t in range(N)]), dict((k, np.array([np.arange(12.) * (i + 1) + t for t in range(N)])) for i, k in enumerate(("trajectory", "velocity", "trajectory_wrt_base", "velocity_wrt_base")))
class FB:
    def forceGain(s, t): return np.ones((12, 9)) * t
def close(a, b, tol=1e-8): assert np.shape(a) == np.shape(b) and np.abs(np.asarray(a) - np.asarray(b)).max() < tol, (a, b)
def files(kind, tv, w):
    D, K, E = motion(len(tv))
    if kind == "plain": cf.create_file(tv, K, D, FB(), w)
    else: getattr(cf, "create_" + kind + "_files")(tv, E, K, D, FB(), w)
'''
X = "momentumopt/python/momentumopt/motion_execution.py"; F = PK + "create_data_file.py"
py("p23-uneven-steps", "P23", "steps of different lengths", "the interval is the wrong one in the second half of the first step",
   [(X, """        closest_idx = np.argmin(abs(time_vector - t))
        # Determine interval
        if time_vector[closest_idx] > t:
            t1_idx = max(closest_idx - 1, 0)
            t2_idx = closest_idx
        else:
            t1_idx = closest_idx
            t2_idx = min(closest_idx + 1, len(time_vector) - 1)

        state_1 = None
        state_2 = None

        if specification == "POSITION":
            state_1 = optimized_motion_eff""", """        closest_idx = np.argmin(abs(time_vector - t))
        # Determine interval
        if time_vector[closest_idx] > t + 1e-9 * time_vector[-1] and closest_idx > 1:
            t1_idx = max(closest_idx - 1, 0)
            t2_idx = closest_idx
        else:
            t1_idx = closest_idx
            t2_idx = min(closest_idx + 1, len(time_vector) - 1)

        state_1 = None
        state_2 = None

        if specification == "POSITION":
            state_1 = optimized_motion_eff""")],
   '''D, K, E = motion(4); tv = np.array([0., .1, .15, .35]); f = ex.interpolate("LMOM", tv, optimized_sequence=K)
for t in (0., .02, .08, .1, .12, .14, .2, .3, .35, .5): close(f(t), [9.81, np.interp(t, tv, [0, 1, 2, 3]), np.interp(t, tv, [0, 1, 4, 9])])
''', H23)
py("p23-horizon-rounding", "P23", "a motion whose length is not a whole number of seconds", "the whole-body files end with the last full second of the motion",
   [(F, """    desired_vel_abs = interpolate("VELOCITY_ABSOLUTE", time_vector, optimized_motion_eff=optimized_motion_eff, optimized_sequence = optimized_sequence)
    max_time = 0 # time horizon in seconds

    if time_vector[-1] - int(time_vector[-1]) > 0.001:""", """    desired_vel_abs = interpolate("VELOCITY_ABSOLUTE", time_vector, optimized_motion_eff=optimized_motion_eff, optimized_sequence = optimized_sequence)
    max_time = 0 # time horizon in seconds

    if time_vector[-1] < 1 or time_vector[-1] - int(time_vector[-1]) > 0.5:""")],
   '''tv = np.arange(14) * .1; files("qp", tv, 20.); assert len(np.loadtxt("quadruped_com.dat")) == 2000
''', H23)
py("p23-contact-leg", "P23", "legs whose contacts differ", "contacts are marked with the legs in the order of the robot",
   [(F, """        swap_coordinates_vec12(des_forces)
        swap_coordinates_vec12(des_positions)""", """        swap_coordinates_vec12(des_positions)""")],
   '''tv = np.arange(4) * .1; files("qp", tv, 20.); c = np.loadtxt("quadruped_contact_activation.dat"); close(c[150], [150, 0, 1, 1, 1])
''', H23)
py("p23-moment-com", "P23", "a com that moves", "the centroidal moment does not change any more in the last interval",
   [(X, "state_2 = centroidal_moment_vector(optimized_dyn_plan.dynamics_states[t2_idx], robot_weight)", "state_2 = state_1 if t2_idx == len(time_vector) - 1 else centroidal_moment_vector(optimized_dyn_plan.dynamics_states[t2_idx], robot_weight)")],
   '''D, K, E = motion(4); tv = np.arange(4) * .1; f = ex.interpolate("CENTROIDAL_MOMENTS", tv, optimized_dyn_plan=D, robot_weight=10.)
m = lambda t: sum(np.cross(D.dynamics_states[t].effPosition(e) - D.dynamics_states[t].com, 10. * D.dynamics_states[t].effForce(e)) for e in range(4))
close(f(.25), (m(2) + m(3)) / 2, 1e-6)
''', H23)
py("p23-state-order", "P23", "a plan with more than one state", "the acceleration at the end of an interval is that of its start",
   [(X, "state_2 = optimized_sequence.kinematics_states[t2_idx].robot_acceleration", "state_2 = optimized_sequence.kinematics_states[t1_idx].robot_acceleration")],
   '''tv = np.arange(4) * .1; files("plain", tv, 20.); close(np.loadtxt("quadruped_generalized_acceleration.dat")[150], np.hstack((150, np.arange(14.) - 1.5)), 1e-6)
''', H23)
