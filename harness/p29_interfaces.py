"""P29: a robot described by a Python class, the feedback gains and the settings of the linear-quadratic solver behave,
when used from Python, exactly as the same things written in C++.
argv: directories of pymomentum, pysolver, pysolverlqr, vpnative"""
import itertools, json, os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path[0:0] = sys.argv[1:5]
import numpy as np
import vp, pyplan
import pysolver, pysolverlqr, pymomentum as pm, vpnative
vp.init(); T = vp.thorough()
SCR = tempfile.mkdtemp(prefix="p29_", dir="."); FILE = os.path.join(SCR, "cfg.yaml"); P = pm.PlannerDoubleParam
val = lambda *k: ((hash(tuple(int(i) for i in k)) * 2654435761 >> 7) % 2001 - 1000) / 1000.
arr = lambda s, *d: np.array([val(s, i, 5 * i % 7) for i in range(int(np.prod(d)))]).reshape(d)


def rot(u):
    v = np.asarray(u) / 40; a = np.linalg.norm(v)
    q = np.array([v[0] / 2, v[1] / 2, v[2] / 2, 1.]) if a < 1e-12 else np.concatenate([np.sin(a / 2) * v / a, [np.cos(a / 2)]])
    return q / np.linalg.norm(q)
def log(q):   # of (x, y, z, w)
    s, w, u = np.linalg.norm(q[:3]), q[3], np.array(q[:3])
    if w < 0: w, u = -w, -u
    return 80 * u if s < 1e-12 else 80 * np.arctan2(s, w) / s * u
def vec(p): return np.concatenate([p.base_position, log(np.array(p.base_orientation)), p.joint_positions])
def copy(s):
    o = pm.KinematicsState(s.numJoints)
    for a in ("com", "lmom", "amom", "robot_posture", "robot_velocity", "robot_acceleration", "endeffector_positions"): setattr(o, a, getattr(s, a))
    return o


class Own(pm.KinematicsInterface):
    """the same robot as the native one; style 0 changes the state it is given, 1 returns a new one, 2 overrides through a subclass of a subclass"""
    def __init__(self, c0, e0, C, E, A, dA, G, g0, style):
        pm.KinematicsInterface.__init__(self); self.c0, self.e0, self.C, self.E, self.A, self.dA, self.G, self.g0, self.style = c0, e0, C, E, A, dA, G, g0, style; self.calls, self.shown, self.seen = [], [], []
    def note(self, n, dt, s): self.calls.append((n, dt)); self.seen.append(np.concatenate([vec(s.robot_posture), s.robot_velocity.generalized_joint_velocities, s.com, s.lmom, s.amom]))
    def out(self, s): return copy(s) if self.style == 1 else s
    def initialize(self, setting): self.calls.append(("initialize", setting.get(P.PlannerDoubleParam_TimeStep)))
    def logarithmicMap(self, w): return log(np.array([w[1], w[2], w[3], w[0]]))
    def integratePosture(self, a, dt):
        self.note("integrate", dt, a); s = self.out(a); x = vec(a.robot_posture) + dt * np.array(a.robot_velocity.generalized_joint_velocities)
        s.robot_posture.base_position = x[:3]; s.robot_posture.base_orientation = rot(x[3:6]); s.robot_posture.joint_positions = x[6:]; return s
    def differentiatePostures(self, a, b, dt):
        self.note("differentiate", dt, a); self.note("differentiate", dt, b); s = self.out(b); s.robot_velocity.generalized_joint_velocities = (vec(b.robot_posture) - vec(a.robot_posture)) / dt; return s
    def displayPosture(self, s, dt): self.calls.append(("display", dt)); self.shown.append(vec(s.robot_posture))
    def updateJacobiansAndState(self, a, dt):
        self.note("update", dt, a); s = self.out(a); x = vec(a.robot_posture); m = self.A.dot(a.robot_velocity.generalized_joint_velocities); s.com = self.c0 + self.C.dot(x); s.lmom = m[:3]; s.amom = m[3:]
        for e in range(4): s.endeffector_positions[e] = self.e0[e] + self.E[e][:3].dot(x)
        j = pm.JacobianVector(); f = 1 + .1 * (len(self.calls) % 3)      # matrices that change from call to call
        for e in range(4): j.append(f * self.E[e])
        self.endeffector_jacobians = j; self.center_of_mass_jacobian = f * self.C; self.centroidal_momentum_matrix = f * self.A; self.centroidal_momentum_matrix_variation = f * self.dA
        self.constraints_matrix = dt * self.G; self.constraints_vector = self.g0 - self.G.dot(x); return s
class Sub(Own): pass


def robot(n, cons, s):
    C = .5 * arr(s + 1, 3, n + 6); C[:, :3] = np.eye(3); A = arr(s + 2, 6, n + 6); A[:3, :3] += 3 * np.eye(3); E = [.5 * arr(s + 10 + e, 6, n + 6) for e in range(4)]
    for e in E: e[:3, :3] = np.eye(3)
    return .1 * arr(s + 3, 3), .2 * arr(s + 4, 4, 3), C, E, A, .5 * arr(s + 5, 6, n + 6), .5 * arr(s + 6, cons, n + 6), .02 * arr(s + 7, cons)


def differ(what, a, b, tol, key, w):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.all(np.isfinite(a)): vp.fail(key, "%s: %s from Python, %s from C++ %s" % (what, a.tolist(), b.tolist(), w)); return True
    d = np.abs(a - b).max() / (1 + np.abs(b).max()) if a.size else 0.
    if not vp.margin(key.replace(":", "_"), d, tol): vp.fail(key, "%s: %s from Python, %s from C++ %s" % (what, a.tolist(), b.tolist(), w)); return True
    return False


CONT = [[[(0, 9, (.2, .1 * (-1) ** e, 0))] for e in range(4)], [[(0, .2, (.2, .1, 0)), (.3, 9, (.3, .1, 0))], [(0, 9, (.2, -.1, 0))], [(.2, 9, (-.2, .1, 0))], []]]
grid = [dict(n=n, ne=ne, act=act, cont=c, cons=k, conv=conv, traj=tr, show=show, style=st, first=f) for n, acts in ((1, [(0,)]), (2, [(0, 1), (1,)]), (3, [(0, 1, 2), (0, 2)])) for act in acts for ne in (4, 2) for c in (0, 1) for k in (0, 2) for conv, tr in ((0, 1), (2, 1), (1, 0), (1, 2))
        for show in (False, True) for st in range(3) for f in (True, False) if T or (n + ne + c + k + conv + 2 * tr + show + st + f + len(act)) % 5 < 2]
for i, k in enumerate(grid):
    if not vp.nextcase("robots"): continue
    with vp.guard():
        n, w = k["n"], "for %s" % k; vp.sample(w)
        ini = {"com": (.1 * arr(i, 3)).tolist(), "lmom": (.3 * arr(i + 1, 3)).tolist(), "amom": (.3 * arr(i + 2, 3)).tolist()}
        cfg = pyplan.config(CONT[k["cont"]], ini=ini, dofs=n, load_kinematics=True, n_act_eefs=k["ne"], time_step=.1, time_horizon=.3, max_trajectory_iters=k["traj"], max_convergence_iters=k["conv"], num_subsamples=2, display_motion=k["show"], active_dofs=list(k["act"]), lambda_regularization=.1,
                            default_joint_positions=(.3 * arr(i + 3, n)).tolist(), floor_height=-100., slacks_penalty=50., convergence_tolerance=1e-9, heuristic="SoftConstraint", use_default_solver_setting=False, feasibility_tolerance=1e-9, absolute_suboptimality_gap=1e-9, relative_suboptimality_gap=1e-9,
                            **{"w_kin_" + a: (np.array([1., 2., .5]) * b).tolist() for a, b in (("com", 5), ("lmom", .3), ("amom", .2), ("lmomd", .01), ("amomd", .02), ("eff_pos", 3), ("eff_pos_nonact", 1))})
        pyplan.write(FILE, cfg); res = []
        for py in (0, 1):
            d = robot(n, k["cons"], 7 * i); r = vpnative.Native(*d) if not py else (Sub if k["style"] == 2 else Own)(*d, k["style"]); s = pm.PlannerSetting(); s.initialize(FILE); st = pm.DynamicsState(); st.fillInitialRobotState(FILE)
            t = pm.TerrainDescription(); t.loadFromFile(FILE); c = pm.ContactPlanFromFile(); c.initialize(s); c.optimize(st, t); N = s.get(pm.PlannerIntParam.PlannerIntParam_NumTimesteps)
            d = pm.DynamicsOptimizer(); d.initialize(s); z = pm.KinematicsSequence(); z.resize(N, n); d.optimize(st, c, z); q = d.dynamicsSequence()
            for j, x in enumerate(q.dynamics_states):
                x.dt = .1 + .05 * (j % 2); x.com, x.lmom, x.amom = .15 * arr(i + j, 3), .5 * arr(i + j + 9, 3), .4 * arr(i + j + 19, 3)
                for e in range(4): x.setEffPosition(e, .25 * arr(i + j + 29 + e, 3))
            o = pm.KinematicsOptimizer(); o.initialize(s, r); o.optimize(st, c, q, k["first"] or k["traj"] == 0); motions = [o.kinematicsSequence()]; out = []
            def read(): return [[np.concatenate([vec(x.robot_posture), x.robot_velocity.generalized_joint_velocities, x.com, x.lmom, x.amom, np.concatenate(list(x.endeffector_positions))]) for x in o.kinematicsSequence().kinematics_states]]
            out += read()
            if i % 3 == 0: o.optimize(st, c, q, False); out += read()          # the motion improved from Python
            jac = [np.array(r.center_of_mass_jacobian), np.array(r.centroidal_momentum_matrix), np.array(r.centroidal_momentum_matrix_variation), np.array(r.constraints_matrix), np.array(r.constraints_vector)] + [np.array(x) for x in r.endeffector_jacobians]
            res.append((out, list(r.calls), [np.array(x) for x in r.shown], [np.array(x) for x in r.seen], jac))
        a, b = res[1], res[0]; vp.nontrivial(); vp.count("motions")
        if [x[0] for x in a[1]] != [x[0] for x in b[1]] or any(abs(x[1] - y[1]) > 1e-12 for x, y in zip(a[1], b[1])): vp.fail("robot:calls", "the methods called are %s, for a C++ robot %s %s" % (a[1][:40], b[1][:40], w)); continue
        if any(differ("quantity %d of the robot" % j, x, y, 1e-4, "robot:matrices", w) for j, (x, y) in enumerate(zip(a[4], b[4]))): continue
        if any(differ("state handed to call %d" % j, x, y, 1e-3, "robot:argument", w) for j, (x, y) in enumerate(zip(a[3], b[3]))): continue
        if any(differ("motion %d" % j, x, y, 1e-3, "robot:motion", w) for j, (x, y) in enumerate(zip(a[0], b[0]))): continue
        if len(a[2]) != len(b[2]) or any(differ("posture shown %d" % j, x, y, 1e-3, "robot:display", w) for j, (x, y) in enumerate(zip(a[2], b[2]))): continue

# ---- matrices of a robot written and read in any order, also matrices of another size
MAT = "center_of_mass_jacobian centroidal_momentum_matrix centroidal_momentum_matrix_variation constraints_matrix constraints_vector endeffector_jacobians".split()
def value(a, k):
    n = 8 + k % 2
    if a == "endeffector_jacobians":
        j = pm.JacobianVector()
        for e in range(4 - k // 2): j.append(arr(100 * k + e, 6, n))
        return j
    return arr(k + 7 * MAT.index(a), 2 + k) if a == "constraints_vector" else arr(k + 7 * MAT.index(a), 3 if a[:3] == "cen" and "mass" in a else 2 + k if a[:4] == "cons" else 6, n)
for seq_ in itertools.product(range(6 * (4 if T else 3)), repeat=2):
    for last in range(6):
        if not vp.nextcase("matrices"): continue
        with vp.guard():
            r = pm.KinematicsInterface() if sum(seq_) % 2 else Own(*robot(2, 1, 1), 0); m = {}; vp.nontrivial(); vp.count("writes", 3)
            for step, x in enumerate([*seq_, last + 6 * ((seq_[0] + 1) % 3)]):
                a, k = MAT[x % 6], x // 6; v = value(a, k); setattr(r, a, v); m[a] = [np.array(y) for y in v] if a[:3] == "end" else np.array(v)
                bad = [b for b in m if len(getattr(r, b)) != len(m[b]) or any(np.shape(p) != np.shape(q) or not np.array_equal(p, q) for p, q in zip(getattr(r, b), m[b]))]
                if bad: vp.fail("matrices:" + bad[0], "%s reads %s after writing %s" % (bad[0], [np.array(y).tolist() for y in getattr(r, bad[0])], [MAT[y % 6] for y in seq_] + [MAT[last]])); break

# ---- gains of the feedback controller
def seq(x): return [float(v) for v in x]
def lqr(f, u, **o):
    v = dict(verbosity=0, lqr_max_iters=40, decimal_digits=4, bpass_regularization_type=2, cost_change_tolerance=1e-12, divergence_limit_check=1e6, bpass_min_regularization=1e-6, bpass_max_regularization=1e10, control_gradient_tolerance=1e-6, bpass_initial_regularization=0., min_expected_cost_improvement=.2,
             bpass_mult_regularization_incr=1.6, bpass_initial_mult_regularization_incr=1., linesearch_coeff=1.1, linesearch_num_coeffs=10, store_data=False, has_control_limits=False, user_parameters=u)
    v.update(o)
    with open(f, "w") as x: json.dump({"solverlqr_variables": v}, x)
    return v
for n, N, bits, wk in itertools.product((1, 2, 3, 4), (1, 2, 3, 5), (0xffff, 0x6b5d7, 0x1234567) if not T else (0xffff, 0x6b5d7, 0x1234567, 0x35a3c, 0), (0, 1, 2)):
    if not vp.nextcase("gains"): continue
    with vp.guard():
        i = 100 * n + 10 * N + bits % 7 + wk; w = "for %d end-effectors, %d steps, contacts %x, weights %d" % (n, N, bits, wk); f = os.path.join(SCR, "lqr.yaml"); vp.sample(w)
        u = {"control_cost": [.01, .02, .005 * (1 + wk)]}
        for a, b in (("com", 10), ("lmom", 1), ("amom", 4)): u[a + "_tracking"] = seq(b * (1 + wk) * np.array([1, 2, .5])); u[a + "_final_tracking"] = seq(5 * b * np.array([.5, 1, 2 + wk]))
        lqr(f, u, time_step=.1, time_horizon=.1 * N, state_dimension=9, control_dimension=3 * n, initial_state=[0.] * 9)
        pyplan.write(FILE, pyplan.config(dofs=2, n_act_eefs=n, time_step=.1, time_horizon=.1 * N)); st = pm.DynamicsState(); st.com = [.1, -.05, .9]; st.lmom = .2 * arr(i, 3); st.amom = .1 * arr(i + 1, 3)
        q = pm.DynamicsSequence(); q.resize(N)
        for t, x in enumerate(q.dynamics_states):
            on = [e < n and bits >> (t * n + e) & 1 for e in range(4)]; x.dt = .1; x.com, x.lmom, x.amom = st.com + .05 * arr(i + t, 3), .2 * arr(i + t + 3, 3), .1 * arr(i + t + 6, 3)
            for e in range(4): x.setEffActivation(e, bool(on[e])); x.setEffPosition(e, [(-1) ** e * .2, .3 if e > 1 else -.1, 0]); x.setEffForce(e, np.array([0, 0, 2.5 * 9.81 / max(sum(on), 1)]) + .3 * arr(i + t + e, 3) if on[e] else np.zeros(3))
        ls = pysolverlqr.SolverLqrSetting(); ls.initialize(f); s = pm.PlannerSetting(); s.initialize(FILE); o = pm.DynamicsFeedback(); o.initialize(ls, s); o.optimize(st, q)
        ref = vpnative.gains(f, FILE, st, q, 0, N); vp.nontrivial(); vp.count("gains", N)
        for t in [*range(N), *reversed(range(N))]:
            g = np.array(o.forceGain(t))
            if g.shape != (3 * n, 9) or differ("gain at step %d" % t, g, ref[t], 1e-9, "gains:value", w): break

# ---- settings of the linear-quadratic solver
FROM = dict(verbosity="IntParam_Verbosity", lqr_max_iters="IntParam_LqrMaxIterations", decimal_digits="IntParam_PrecisionDigits", bpass_regularization_type="IntParam_BackPassRegulatizationType", cost_change_tolerance="DoubleParam_CostChangeTolerance", divergence_limit_check="DoubleParam_DivergenceLimitCheck",
            bpass_min_regularization="DoubleParam_BackPassMinRegularization", bpass_max_regularization="DoubleParam_BackPassMaxRegularization", control_gradient_tolerance="DoubleParam_ControlGradientTolerance", bpass_initial_regularization="DoubleParam_BackPassInitialRegularization",
            min_expected_cost_improvement="DoubleParam_MinExpectedCostImprovement", bpass_mult_regularization_incr="DoubleParam_BackPassMultRegularizationIncr", bpass_initial_mult_regularization_incr="DoubleParam_BackPassInitialMultRegularizationIncr", store_data="BoolParam_StoreData",
            has_control_limits="BoolParam_HasControlLimits", time_step="DoubleParam_TimeStep", time_horizon="DoubleParam_TimeHorizon", state_dimension="IntParam_StateDimension", control_dimension="IntParam_ControlDimension", initial_state="VectorParam_InitialState",
            min_control_limits="VectorParam_MinControlLimits", max_control_limits="VectorParam_MaxControlLimits")
for i in range(16 if not T else 64):
    if not vp.nextcase("settings"): continue
    with vp.guard():
        f = os.path.join(SCR, "lqr%d.yaml" % i); nx, nu = 2 + i % 3, 1 + i % 2
        more = dict(has_control_limits=True, min_control_limits=seq(-1 - arr(i, nu) / 2), max_control_limits=seq(1 + arr(i + 1, nu) / 2)) if i & 4 else {}
        if i & 8: more.update(verbosity=3, lqr_max_iters=30 + i, decimal_digits=6, bpass_regularization_type=1, cost_change_tolerance=1e-7, divergence_limit_check=1e5, bpass_min_regularization=1e-5, bpass_max_regularization=1e9, control_gradient_tolerance=2e-6, bpass_initial_regularization=.5, min_expected_cost_improvement=.3,
                              bpass_mult_regularization_incr=1.7, bpass_initial_mult_regularization_incr=1.25, linesearch_coeff=1.5, linesearch_num_coeffs=4, store_data=True)
        v = lqr(f, {"weight": 1.}, time_step=.05 * (1 + i % 3), time_horizon=1. + i, state_dimension=nx, control_dimension=nu, initial_state=seq(arr(i, nx)), **more); s = pysolverlqr.SolverLqrSetting(); s.initialize(f); vp.nontrivial(); vp.sample(json.dumps(v))
        get = lambda name: s.get(getattr(getattr(pysolverlqr, "SolverLqr" + name.split("_")[0]), "SolverLqr" + name))
        for name, number, want in vpnative.lqr_settings(f):
            e = getattr(getattr(pysolverlqr, name.split("_")[0]), name); got = s.get(e) if want is not None else None
            if int(e) != number or getattr(pysolverlqr, name) != e: vp.fail("settings:number", "%s stands for %d, in C++ for %d" % (name, int(e), number)); continue
            if type(got) is not type(want) or np.asarray(got).tolist() != np.asarray(want).tolist(): vp.fail("settings:" + name, "%s reads %r, in C++ %r" % (name, got, want))
        for k, name in FROM.items():
            if k in v and np.asarray(get(name)).tolist() != v[k]: vp.fail("settings:file", "%s reads %r, the file says %s: %r" % (name, get(name), k, v[k]))
        if get("StringParam_ConfigFile") != f: vp.fail("settings:file", "the file read is called %r instead of %r" % (get("StringParam_ConfigFile"), f))
        if not np.allclose(get("VectorParam_LineSearchCoeffs"), [v["linesearch_coeff"] ** -(j * j) for j in range(v["linesearch_num_coeffs"])], rtol=1e-12): vp.fail("settings:file", "the coefficients of the line search are %s" % get("VectorParam_LineSearchCoeffs"))
        os.unlink(f)
import shutil; shutil.rmtree(SCR, ignore_errors=True)
vp.finish()
