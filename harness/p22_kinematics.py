"""P22: whole-body kinematics. Velocities (accelerations) are the weighted least squares solution of the tasks, in flight
subject to the momentum; motions are consistent with the robot and with what the plan asks for; settings reach the tasks.
argv: directories of pymomentum, pysolver, pysolverlqr"""
import itertools, os, sys, io, contextlib, tempfile, shutil
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1"); os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path[0:0] = sys.argv[1:4] + [os.path.join(os.environ.get("VP_REPO", "/repo"), "momentumopt/python")]
os.environ["MPLCONFIGDIR"] = tempfile.mkdtemp(prefix="mpl.", dir=".")
import numpy as np, pinocchio as pin
from scipy.interpolate import CubicSpline
import vp, pyplan, quad
quad.stub()
import pysolver, pymomentum as pm
import momentumopt.kinoptpy.momentum_kinematics_optimizer as mk
from momentumopt.kinoptpy.inverse_kinematics import PointContactInverseKinematics
from momentumopt.kinoptpy.second_order_ik import SecondOrderInverseKinematics
vp.init(); T = vp.thorough()
quiet = lambda: contextlib.redirect_stdout(io.StringIO())
EFFS = ["FR", "FL", "HR", "HL"]; NAMES = [e + "_ANKLE" for e in EFFS]; HIPS = [e + "_HFE" for e in EFFS]
def h(*a):
    x = 1469598103
    for v in a: x = ((x ^ (int(v) + 77)) * 1099511 + 12345) % 2147483647
    return x
def num(*a): return (h(*a) % 2001 - 1000) / 1000.
def vec(n, *a): return np.array([num(j, *a) for j in range(n)])


# ---- independent view of the robot
class View:
    def __init__(self, m): self.m, self.d = m, m.createData(); self.ids = [m.getFrameId(n) for n in NAMES]; self.hips = [m.getFrameId(n) for n in HIPS]; self.mass = quad.mass(m)
    def feet(self, q, ids=None): pin.framesForwardKinematics(self.m, self.d, q); return np.array([self.d.oMf[i].translation.copy() for i in (ids or self.ids)])
    def rot(self, q): return pin.Quaternion(q[6], q[3], q[4], q[5]).matrix()
    def com(self, q): return pin.centerOfMass(self.m, self.d, q).copy()
    def mom(self, q, v): x = pin.computeCentroidalMomentum(self.m, self.d, q, v); return np.hstack((x.linear, x.angular)).copy()
    def vel(self, q, v, ids=None):
        """velocities of points by central differences along the motion"""
        e = 2e-6; return (self.feet(pin.integrate(self.m, q, v * e), ids) - self.feet(pin.integrate(self.m, q, -v * e), ids)) / (2 * e)
    def tasks(self, q):
        """momentum (6), feet (12) and joint rows: columns are the effects of unit velocities"""
        nv = self.m.nv; J = np.zeros((18 + nv - 6, nv))
        for k in range(nv):
            u = np.zeros(nv); u[k] = 1; J[:6, k] = self.mom(q, u); J[6:18, k] = self.vel(q, u).ravel()
        J[18:, 6:] = np.eye(nv - 6); return J
    def drift(self, q, v):
        e = 1e-5; a, b = pin.integrate(self.m, q, v * e), pin.integrate(self.m, q, -v * e)
        ja, jb = np.zeros(18 + self.m.nv - 6), np.zeros(18 + self.m.nv - 6)
        for x, j in ((a, ja), (b, jb)): j[:6] = self.mom(x, v); pin.computeJointJacobians(self.m, self.d, x); pin.updateFramePlacements(self.m, self.d); j[6:18] = np.hstack([pin.getFrameJacobian(self.m, self.d, i, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED)[:3] @ v for i in self.ids])
        return (ja - jb) / (2 * e)


MODELS = {8: quad.model(False), 12: quad.model(True)}
VIEW = {n: View(m) for n, m in MODELS.items()}
def config(n, s, turn="any"):
    """a posture near a stance"""
    q = quad.stance(MODELS[n], .24); q[:3] += .05 * vec(3, s, 1); q[7:] += .3 * vec(n, s, 2)
    w = {"any": .6 * vec(3, s, 3), "none": np.zeros(3), "yaw": np.array([0, 0, 1.5 * num(s, 4)]), "big": 2.5 * vec(3, s, 3)}[turn]
    q[3:7] = pin.Quaternion(pin.exp3(w)).coeffs(); return q
def judge(key, what, x, J, W, y, A=None, b=None, scale=1.):
    """x minimises |W^(1/2)(Jx - y)|^2 (subject to Ax = b) up to a vanishing damping"""
    if not np.all(np.isfinite(x)): vp.fail(key + ":finite", what + ": %s" % x); return False
    g = J.T @ (W * (J @ x - y)); ref = 1e-9 * np.max(np.abs(J.T) @ (W * (np.abs(J) @ np.abs(x) + np.abs(y)))) + 2e-6 * (1 + np.max(np.abs(x)))
    if A is not None:
        if not vp.margin("constraint", np.max(np.abs(A @ x - b)), 1e-7 * (1 + np.max(np.abs(b)) + np.max(np.abs(x)))): vp.fail(key + ":constraint", "%s: %s, required %s" % (what, A @ x, b)); return False
        g = g - A.T @ np.linalg.lstsq(A.T, g, rcond=None)[0]
    if not vp.margin("optimum", np.max(np.abs(g)), 30 * ref): vp.fail(key + ":optimum", "%s: not the least squares solution, gradient %.3g beyond %.3g at %s" % (what, np.max(np.abs(g)), 30 * ref, x)); return False
    return True


# ---- the quadratic programs underneath
from momentumopt.kinoptpy.qp import QpSolver
def best(P, q, G, h, A, b):
    """the optimum by trying every set of active inequalities"""
    n = len(q); x0 = None; f0 = np.inf
    for k in range(len(h) + 1):
        for act in itertools.combinations(range(len(h)), k):
            C = np.vstack((A, G[list(act)])); d = np.hstack((b, h[list(act)])); m = len(d)
            if m > n or (m and np.linalg.matrix_rank(C, 1e-9) < m): continue
            x = np.linalg.solve(np.block([[P, C.T], [C, np.zeros((m, m))]]), np.hstack((-q, d)))[:n]
            if np.all(G @ x <= h + 1e-9):
                f = .5 * x @ P @ x + q @ x
                if f < f0: f0, x0 = f, x
    return x0
for n in (2, 3, 4):
    for neq in range(0, min(n, 3)):
        for nin in range(0, 5):
            for s in range(40 if T else 12):
                if not vp.nextcase("program"): continue
                with vp.guard():
                    M = np.array([[num(i, j, n, neq, nin, s, 71) for j in range(n)] for i in range(n)]); P = M.T @ M + .05 * np.eye(n); q = 2 * vec(n, neq, nin, s, 72)
                    A = np.array([vec(n, i, nin, s, 73) for i in range(neq)]).reshape(neq, n); G = np.array([vec(n, i, neq, s, 74) for i in range(nin)]).reshape(nin, n); x = vec(n, s, 75); b = A @ x; h2 = G @ x + .01 + np.abs(vec(nin, s, 76)) * (s % 3)
                    want = best(P, q, G, h2, A, b); got = QpSolver().quadprog_solve_qp(P, q, **dict({} if not nin else dict(G=G, h=h2), **({} if not neq else dict(A=A, b=b))))
                    what = "%d variables, %d equalities, %d inequalities, set %d" % (n, neq, nin, s)
                    if want is None: continue
                    if not vp.margin("program", np.max(np.abs(got - want)), 1e-6 * (1 + np.max(np.abs(want)))): vp.fail("program:optimum", "%s: %s, optimum %s" % (what, got, want))
                    else: vp.nontrivial()
                    vp.sample(what)

# ---- velocities
GAINS = [dict(), dict(w_lin_mom_tracking=3., w_ang_mom_tracking=.2, w_endeff_contact=10., w_endeff_tracking=.5, w_joint_regularization=.1, p_endeff_tracking=5., p_com_tracking=2.),
         dict(w_lin_mom_tracking=.1, w_ang_mom_tracking=7., w_endeff_contact=.3, w_endeff_tracking=20., w_joint_regularization=1., p_endeff_tracking=.5, p_com_tracking=8.)]
DEF = dict(w_lin_mom_tracking=1., w_ang_mom_tracking=1., w_endeff_contact=1., w_endeff_tracking=1., w_joint_regularization=.01, p_endeff_tracking=1., p_com_tracking=1.)
def request(n, s, far=1.):
    v = VIEW[n]; q = config(n, s, ("any", "yaw", "big", "none")[s % 4])
    return dict(q=q, dq=vec(n + 6, s, 9), com=v.com(q) + .1 * far * vec(3, s, 5), lmom=vec(3, s, 6), amom=.3 * vec(3, s, 7), pos=v.feet(q) + .1 * far * vec(12, s, 8).reshape(4, 3), vel=vec(12, s, 10).reshape(4, 3), reg=None if s % 3 == 0 else vec(n, s, 11))
def ask(ik, r, act, flight): return np.asarray(ik.compute(r["q"].copy(), r["dq"].copy(), r["com"].copy(), r["lmom"].copy(), r["amom"].copy(), r["pos"].copy(), r["vel"].copy(), np.array(act, dtype=float), None if r["reg"] is None else r["reg"].copy(), flight)).ravel()
def expect(n, r, act, g, init, p=None):
    v = VIEW[n]; pe = 1. if init else g["p_endeff_tracking"]
    y = np.hstack((r["lmom"] + g["p_com_tracking"] * (r["com"] - v.com(r["q"])), r["amom"], (r["vel"] + pe * (r["pos"] - v.feet(r["q"]))).ravel(), np.zeros(n) if r["reg"] is None else r["reg"]))
    W = np.hstack([[g["w_lin_mom_tracking"]] * 3, [g["w_ang_mom_tracking"]] * 3] + [[g["w_endeff_contact"] if a else g["w_endeff_tracking"]] * 3 for a in act] + [[g["w_joint_regularization"]] * n])
    return v.tasks(r["q"]), W, y
for n in (8, 12):
    for gi, gain in enumerate(GAINS):
        g = dict(DEF, **gain)
        for act in itertools.product((0, 1), repeat=4):
            for flight in ((False, True) if not any(act) else (False,)):
                for init in (0, 1):
                    for s in range(6 if T else 2):
                        for reuse in range(4):
                            if not vp.nextcase("velocity"): continue
                            with vp.guard():
                                ik = PointContactInverseKinematics(MODELS[n], NAMES); ik.is_init_time = init
                                for k, x in gain.items(): setattr(ik, k, x)
                                r = request(n, h(n, gi, s, *act) % 1000)
                                if reuse == 1: ask(ik, request(n, s + 7), [1 - a for a in act], not flight)       # an earlier call with something else
                                if reuse == 2: ask(ik, dict(r, dq=r["dq"] * 2, com=r["com"] + 1), act, False)    # same posture, other references
                                if reuse == 3:                                                                   # the caller's posture is one array that is overwritten
                                    r0 = request(n, s + 5); u = r0["q"].copy(); w = r0["dq"].copy(); raw = lambda z: np.asarray(ik.compute(u, w, z["com"].copy(), z["lmom"].copy(), z["amom"].copy(), z["pos"].copy(), z["vel"].copy(), np.array(act, dtype=float), None if z["reg"] is None else z["reg"].copy(), is_flight_phase=flight)).copy()
                                    raw(r0); u[:] = r["q"]; w[:] = r["dq"]; x = raw(r)
                                    if not np.array_equal(u, r["q"]) or not np.array_equal(w, r["dq"]): vp.fail("velocity:input", "the posture given was changed"); continue
                                else: x = ask(ik, r, act, flight)
                                J, W, y = expect(n, r, act, g, init)
                                what = "%d joints, contacts %s, %s, set %d" % (n, act, "flight" if flight else "no flight", gi)
                                ok = judge("velocity", what, x, J, W, y, *((J[:6], np.hstack((r["lmom"], r["amom"]))) if flight else ())); vp.nontrivial(ok); vp.sample(what)

# ---- accelerations
G2 = [dict(), dict(w_endeff_tracking=50., w_endeff_contact=700., w_lin_mom_tracking=3., w_ang_mom_tracking=2., w_joint_regularization=.5, p_endeff_tracking=30., d_endeff_tracking=4., p_com_tracking=7., p_orient_tracking=3., d_orient_tracking=2., p_joint_regularization=6., d_joint_regularization=.25, p_mom_tracking=np.array([1., 2, 3, 4, 5, 6]))]
DEF2 = dict(w_endeff_tracking=1e5, w_endeff_contact=1e5, w_lin_mom_tracking=100., w_ang_mom_tracking=10., w_joint_regularization=.1, p_endeff_tracking=1e4, d_endeff_tracking=200., p_com_tracking=100., p_orient_tracking=10., d_orient_tracking=1., p_joint_regularization=1., d_joint_regularization=.5, p_mom_tracking=10. * np.array([1, 1, 1, .01, .01, .01]))
for n in (8, 12):
    for gi, gain in enumerate(G2):
        g = dict(DEF2, **gain); v = VIEW[n]
        for act in itertools.product((0, 1), repeat=4):
            for turn in ("none", "yaw"):
                for s in range(6 if T else 2):
                    if not vp.nextcase("acceleration"): continue
                    with vp.guard():
                        k2 = SecondOrderInverseKinematics(MODELS[n], NAMES)
                        for k, x in gain.items(): setattr(k2, k, x)
                        sd = h(n, gi, s, *act) % 1000; q = config(n, sd, turn); dq = vec(n + 6, sd, 21); dq[3:6] = [0, 0, dq[5]] if turn == "yaw" else dq[3:6]
                        want = np.array([0, 0, 1.5 * num(sd, 22)]) if turn == "yaw" else vec(3, sd, 22); R = pin.exp3(want)
                        com = v.com(q) + .1 * vec(3, sd, 23); mom, dmom = vec(6, sd, 24), vec(6, sd, 25); pos = v.feet(q) + .1 * vec(12, sd, 26).reshape(4, 3); vel = vec(12, sd, 27).reshape(4, 3); acc = vec(12, sd, 28).reshape(4, 3); reg = None if s % 3 == 2 else q[7:] + vec(n, sd, 29)
                        if s % 2: k2.step(config(n, sd + 1), vec(n + 6, sd, 31), com + 1, pin.Quaternion(R), mom * 2, dmom, pos, vel, acc, [1, 1, 1, 1], None)
                        x = np.asarray(k2.step(q.copy(), dq.copy(), com.copy(), pin.Quaternion(R), mom.copy(), dmom.copy(), pos.copy(), vel.copy(), acc.copy(), np.array(act, dtype=float), None if reg is None else reg.copy())).ravel()
                        J = v.tasks(q); y = np.zeros(18 + n); y[:6] = dmom + g["p_mom_tracking"] * (mom - v.mom(q, dq)); y[:3] += g["p_com_tracking"] * (com - v.com(q)); y[3:6] += g["p_orient_tracking"] * pin.log3(v.rot(q).T @ R) - g["d_orient_tracking"] * dq[3:6]
                        y[6:18] = (g["p_endeff_tracking"] * (pos - v.feet(q)) + g["d_endeff_tracking"] * (vel - v.vel(q, dq)) + acc).ravel()
                        if reg is not None: y[18:] = g["p_joint_regularization"] * (reg - q[7:]) - g["d_joint_regularization"] * dq[6:]
                        W = np.hstack([[g["w_lin_mom_tracking"]] * 3, [g["w_ang_mom_tracking"]] * 3] + [[g["w_endeff_contact"] if a else g["w_endeff_tracking"]] * 3 for a in act] + [[g["w_joint_regularization"]] * n])
                        yd = y - v.drift(q, dq)
                        gr = J.T @ (W * (J @ x - yd)); sc = np.max(np.abs(J.T) @ (W * (np.abs(J) @ np.abs(x) + np.abs(yd))))
                        what = "%d joints, contacts %s, set %d, %s" % (n, act, gi, turn)
                        if not vp.margin("acceleration", np.max(np.abs(gr)), 1e-6 * sc + 1e-4 * (1 + np.max(np.abs(x)))): vp.fail("acceleration:optimum", "%s: not the least squares solution, gradient %.3g of %.3g at %s" % (what, np.max(np.abs(gr)), sc, x))
                        else: vp.nontrivial()
                        vp.sample(what)

# ---- motions
SCR = tempfile.mkdtemp(prefix="p22.", dir="."); FILE = os.path.join(SCR, "c.yaml")
def settings(n, N, dt, contacts=None, lqr=False, **over):
    m = MODELS[n]; v = VIEW[n]; q0 = quad.stance(m, .24); f = v.feet(q0)
    ini = {"com": v.com(q0).tolist(), "eef_pose": {"eef_" + e: [1.] + [float(x) for x in f[i]] + [1., 0, 0, 0] for i, e in enumerate(pyplan.EFF)}}
    o = dict(load_kinematics=True, time_step=dt, time_horizon=N * dt, robot_mass=v.mass, default_joint_positions=[float(x) for x in quad.stance(m, .25)[7:]]); o.update(over)
    cfg = pyplan.config(contacts or [[(0, 100, f[i])] for i in range(4)], ini=ini, dofs=n, **o)
    if lqr: cfg["solverlqr_dynamics"] = dict(verbosity=0, decimal_digits=4, lqr_max_iters=1, linesearch_coeff=1.1, linesearch_num_coeffs=10, cost_change_tolerance=1e-9, divergence_limit_check=1e6, bpass_regularization_type=2, bpass_min_regularization=1e-6, bpass_max_regularization=1e10,
        control_gradient_tolerance=1e-6, bpass_initial_regularization=.1, min_expected_cost_improvement=.2, bpass_mult_regularization_incr=1.2, bpass_initial_mult_regularization_incr=1., problem_name="DynamicMomentumOptimization", time_step=dt, time_horizon=N * dt, state_dimension=9, control_dimension=12,
        initial_state=[0.] * 9, has_control_limits=False, store_data=False, user_parameters=dict(control_cost=[.001] * 3, com_tracking=[1.] * 3, lmom_tracking=[1.] * 3, amom_tracking=[10.] * 3, com_final_tracking=[1.] * 3, lmom_final_tracking=[1.] * 3, amom_final_tracking=[10.] * 3))
    pyplan.write(FILE, cfg); s = pm.PlannerSetting(); s.initialize(FILE); st = pm.DynamicsState(); st.fillInitialRobotState(FILE); return s, st, f
def dynseq(n, N, dt, acts, seed, f):
    """a planned motion: acts[t][e]; feet move when they are lifted; momentum and com from a smooth hash"""
    v = VIEW[n]; c0 = v.com(quad.stance(MODELS[n], .24)); q = pm.DynamicsSequence(); q.resize(N); pos = [f[e].copy() for e in range(4)]; was = [1] * 4
    for t, x in enumerate(q.dynamics_states):
        x.dt = dt; x.com = c0 + .01 * np.sin(np.array([.3, .2, .1]) * t + seed); x.lmom = .2 * vec(3, seed, t, 41); x.amom = .02 * vec(3, seed, t, 42)
        for e in range(4):
            if acts[t][e] and not was[e]: pos[e] = f[e] + np.array([.03 * num(seed, e, t, 43), .02 * num(seed, e, t, 44), 0.])
            x.setEffActivation(e, bool(acts[t][e])); x.setEffPosition(e, pos[e]); was[e] = acts[t][e]
    return q
def numbers(q): return [(x.dt, x.com.copy(), x.lmom.copy(), x.amom.copy()) + tuple(x.effPosition(e) for e in range(4)) + tuple(x.effActivation(e) for e in range(4)) for x in q.dynamics_states]
def equal(a, b): return len(a) == len(b) and all(np.array_equal(x, y) for s, t in zip(a, b) for x, y in zip(s, t))
def states(ks): return [(x.com.copy(), x.lmom.copy(), x.amom.copy(), x.robot_posture.generalized_joint_positions.copy(), x.robot_velocity.generalized_joint_velocities.copy()) for x in ks.kinematics_states]
def consistent(n, opt, dt, what, first_order):
    """states, posture, velocities and the reported foot motion agree with each other"""
    v = VIEW[n]; st = states(opt.kinematics_sequence); m = opt.motion_eff; ok = True
    for t, (com, lm, am, q, dq) in enumerate(st):
        mo = v.mom(q, dq)
        for key, a, b, tol in (("com", com, v.com(q), 1e-9), ("lmom", lm, mo[:3], 1e-9), ("amom", am, mo[3:], 1e-9), ("feet", m["trajectory"][t], v.feet(q).ravel(), 1e-9), ("feet velocity", m["velocity"][t], v.vel(q, dq).ravel(), 1e-6),
                               ("feet from hip", m["trajectory_wrt_base"][t], (v.feet(q) - v.feet(q, v.hips)).ravel(), 1e-9), ("feet velocity from hip", m["velocity_wrt_base"][t], (v.vel(q, dq) - v.vel(q, dq, v.hips)).ravel(), 2e-6)):
            if not np.all(np.isfinite(a)) or not vp.margin("consistent", np.max(np.abs(a - b)), tol * (1 + np.max(np.abs(dq)))): vp.fail("motion:" + key, "%s: %s of step %d is %s, the posture says %s" % (what, key, t, a, b)); return False
        if abs(np.linalg.norm(q[3:7]) - 1) > 1e-9: vp.fail("motion:quaternion", "%s: step %d: %s" % (what, t, q[3:7])); return False
        if first_order and t:
            e = pin.difference(MODELS[n], pin.integrate(MODELS[n], st[t - 1][3], dq * dt), q)
            if not vp.margin("integration", np.max(np.abs(e)), 1e-9): vp.fail("motion:velocity", "%s: step %d does not follow from the one before with its velocity (off by %s)" % (what, t, e)); return False
    return True
def refs(n, N, dt, seq, acts, z):
    """foot references (see P21), from the planned sequence alone"""
    P, V = np.zeros((N, 4, 3)), np.zeros((N, 4, 3)); S = seq.dynamics_states
    for e in range(4):
        cs = []; t = 0
        while t < N:
            if acts[t][e]:
                j = t
                while j + 1 < N and acts[j + 1][e]: j += 1
                cs.append((t, j, S[j].effPosition(e))); t = j
            t += 1
        cs = cs or [(0, N - 1, S[0].effPosition(e))]
        for t in range(N):
            P[t, e] = cs[0][2]
            for i, (a, b, p) in enumerate(cs):
                if t >= a: P[t, e] = p
                if b < t and i + 1 < len(cs) and t < cs[i + 1][0]:
                    A, B, p2 = b, cs[i + 1][0], cs[i + 1][2]; L = float(B - A); s = (t - A) / L; c = np.array([0, 0, z + p[2] - (p[2] + p2[2]) / 2.])
                    P[t, e] = p + (p2 - p) * (10 * s**3 - 15 * s**4 + 6 * s**5) + 64 * c * (s * (1 - s))**3; V[t, e] = ((p2 - p) * 30 * (s * (1 - s))**2 + 192 * c * (s * (1 - s))**2 * (1 - 2 * s)) / L / dt
    return P, V
def minjerk(knots, t):
    i = max([k for k in range(len(knots) - 1) if knots[k][0] < t] or [0]); (a, x), (b, y) = knots[i], knots[i + 1]; s = (t - a) / (b - a); return x + (y - x) * (10 * s**3 - 15 * s**4 + 6 * s**5)
def through(vias, ini, end, N, dt):
    if not len(vias): return lambda t: ini
    kn = [(0., ini)] + [(w[0] / dt, np.array(w[1:])) for w in vias] + ([(float(N), end)] if abs(vias[-1][0] / dt - N) > 0 else [])
    return lambda t: minjerk(kn, t)


PH = {1: (1, 1, 1, 1), 0: (0, 0, 0, 0), 2: (1, 0, 0, 1), 3: (0, 1, 1, 1)}
L = 5
pats = [p for p in itertools.product((0, 1, 2, 3), repeat=L) if T or (h(*p) % 5 == 0 or p in ((1,) * L, (0,) * L, (0, 1, 0, 1, 1), (1, 0, 0, 1, 1), (1, 2, 0, 0, 3)))]
def first_order(n, pat, dt, gi, nvj, nvb, seed, again, preset=False):
    N = len(pat); acts = [PH[p] for p in pat]; s, ini, f = settings(n, N, dt); v = VIEW[n]; seq = dynseq(n, N, dt, acts, seed, f); before = numbers(seq)
    k = mk.MomentumKinematicsOptimizer()
    with quiet():
        k.initialize(s, RobotWrapper=quad.Quadruped12 if n == 12 else quad.Quadruped); g = dict(DEF, **GAINS[gi])
        for a, x in GAINS[gi].items(): setattr(k.inv_kin, a, x)
        k.reg_orientation, k.reg_joint_position = .3, .7
        k.via_joint = [np.hstack((dt * (1 + 2 * i), .8 + .3 * vec(n, seed, i, 51))) for i in range(nvj)]; k.n_via_joint = nvj
        k.via_base = [np.hstack((dt * (2 + i), .2 * vec(3, seed, i, 52))) for i in range(nvb)]; k.n_via_base = nvb
        if preset: given = config(n, seed, "yaw"); k.q_init, k.dq_init = given.copy(), np.zeros(n + 6)
        start = None if not preset else (given, k.dq_init.copy())
        k.optimize(ini, None, seq); one = states(k.kinematics_sequence)
        if again: k.optimize(ini, None, seq)
    what = "%d joints, phases %s, set %d, %d/%d viapoints" % (n, pat, gi, nvj, nvb)
    if not equal(before, numbers(seq)): vp.fail("motion:input", what + ": the plan was changed"); return False
    st = states(k.kinematics_sequence)
    if again and not equal(one, st): vp.fail("motion:again", what + ": the same motion computed again differs"); return False
    if len(st) != N: vp.fail("motion:size", "%d states for %d steps" % (len(st), N)); return False
    if preset and not (np.array_equal(k.q_init, start[0]) and np.array_equal(k.dq_init, start[1])): vp.fail("motion:given", "%s: the posture given to start from became %s" % (what, k.q_init)); return False
    if not np.array_equal(st[0][3], k.q_init) or not np.array_equal(st[0][4], start[1] if preset else np.zeros(n + 6)): vp.fail("motion:start", "%s: starts with %s %s" % (what, st[0][3], st[0][4])); return False
    if not consistent(n, k, dt, what, True): return False
    P, V = refs(n, N, dt, seq, acts, .1); D = seq.dynamics_states; jd = through(k.via_joint, k.q_init[7:], k.q_init[7:], N, dt); bd = through(k.via_base, np.zeros(3), np.zeros(3), N, dt); last = None; lz = None; Jp = None
    for t in range(N - 1):
        q, dq, x = st[t][3], st[t][4], st[t + 1][4]; fl = not any(acts[t]); J = v.tasks(q)
        if not fl:
            Rg = pin.rpy.rpyToMatrix(bd(t)); lm = D[t].lmom; am = D[t].amom + .3 * pin.log3(Rg @ v.rot(q).T); lz = D[t].lmom[2]; last = [v.mom(q, dq)] + ([] if Jp is None else [Jp[:6] @ dq])   # up to the discretisation
        else:
            lz = (D[0].lmom[2] if lz is None else lz) - v.mass * 9.81 * dt; last = [min(last or [np.hstack((D[0].lmom, D[0].amom))], key=lambda z: np.max(np.abs((J[:6] @ x - z)[[0, 1, 3, 4, 5]])))]; lm = np.array([last[0][0], last[0][1], lz]); am = last[0][3:]
        Jp = J
        r = dict(q=q, com=D[t].com, lmom=lm, amom=am, pos=P[t], vel=V[t], reg=.7 * (jd(t) - q[7:])); J, W, y = expect(n, r, acts[t], g, 0)
        # in flight with nothing defined before the first contact only the change of the momentum is judged
        if fl and not any(any(a) for a in acts[:t]):
            if t and not any(acts[t - 1]):
                a, b = v.mom(st[t - 1][3], dq), v.mom(q, x)
                if np.max(np.abs(b - a - np.array([0, 0, -v.mass * 9.81 * dt, 0, 0, 0]))) > 1e-6: vp.fail("motion:flight", "%s: momentum %s after %s in flight" % (what, b, a)); return False
            continue
        if not judge("motion", what + ", step %d" % t, x, J, W, y, *((J[:6], np.hstack((lm, am))) if fl else ())): return False
        vp.count("steps"); vp.count("flight_steps", fl)
    return True
for i, pat in enumerate(pats):
    for n in ((8, 12) if T else ((8, 12)[i % 2],)):
        if not vp.nextcase("first order"): continue
        with vp.guard(): vp.nontrivial(first_order(n, pat, (.05, .1)[i % 2], i % 3, i % 3, (i // 3) % 3, i, i % 4 == 0, i % 3 == 1)); vp.sample("%d joints, phases %s" % (n, pat))

# second order: one motion at the rate of a kilohertz
for i, (dt, N) in enumerate([(.05, 4), (.043, 3), (.02, 5), (.1, 3), (.059, 3), (.087, 3)] + ([(.143, 3), (.01, 8), (.102, 3)] if T else [])):
    for n in (8, 12):
        for pi, pat in enumerate([(1,) * N, tuple([2] * (N - 1) + [1]), tuple([1] + [3] * (N - 1))]):
            if not vp.nextcase("second order"): continue
            with vp.guard():
                acts = [PH[p] for p in pat]; s, ini, f = settings(n, N, dt); seq = dynseq(n, N, dt, acts, i, f); k = mk.MomentumKinematicsOptimizer(); v = VIEW[n]; W2 = dict(w_endeff_contact=1e5, w_endeff_tracking=1e5) if pi == 0 else dict(w_endeff_contact=1e5, w_endeff_tracking=3e2, w_ang_mom_tracking=40., p_orient_tracking=15., d_orient_tracking=3.)
                nvj, nvb = pi, (pi + i) % 3
                def use(o):
                    for a, x in W2.items(): setattr(o, a, x)
                with quiet():
                    k.initialize(s, RobotWrapper=quad.Quadruped12 if n == 12 else quad.Quadruped); k.use_second_order_inv_kin = True; use(k.snd_order_inv_kin)
                    k.via_joint = [np.hstack((dt * (1 + w), .8 + .2 * vec(n, i, w, 51))) for w in range(nvj)]; k.n_via_joint = nvj; k.via_base = [np.hstack((dt * (.5 + w), .1 * vec(3, i, w, 52))) for w in range(nvb)]; k.n_via_base = nvb
                    k.optimize(ini, None, seq)
                what = "%d joints, dt %g, phases %s" % (n, dt, pat); ok = consistent(n, k, dt, what, False); st = states(k.kinematics_sequence)
                if not np.array_equal(st[0][3], k.q_init): vp.fail("second:start", what); continue
                P, V = refs(n, N, dt, seq, acts, .1); tm = np.arange(N) * dt; D = seq.dynamics_states; sp = lambda y: CubicSpline(tm, np.array(y)); C, LM, AM, PP, VV = sp([x.com for x in D]), sp([x.lmom for x in D]), sp([x.amom for x in D]), sp(P), sp(V)
                jd = through(k.via_joint[:nvj], k.q_init[7:], k.q_init[7:], N, dt); bd = through(k.via_base[:nvb], np.zeros(3), np.zeros(3), N, dt); JD, BD = sp([jd(t) for t in range(N)]), sp([bd(t) for t in range(N)]); bad = []
                for shift in (0, 1):     # the contacts of an interval: those at its end or those at its start
                    q, dq = k.q_init.copy(), k.dq_init.copy(); k2 = SecondOrderInverseKinematics(MODELS[n], NAMES); use(k2); steps = int(round(dt / .001)); wrong = None
                    for it in range(1, N):
                        for j in range(steps):
                            t = ((it - 1) * steps + j) * .001
                            a = k2.step(q, dq, C(t), pin.Quaternion(pin.rpy.rpyToMatrix(BD(t))), np.hstack((LM(t), AM(t))), np.hstack((LM(t, 1), AM(t, 1))), PP(t), VV(t), VV(t, 1), np.array(acts[it - shift], dtype=float), JD(t)); dq = dq + a * .001; q = pin.integrate(MODELS[n], q, dq * .001); vp.count("steps")
                        e = np.hstack((pin.difference(MODELS[n], q, st[it][3]), .05 * (dq - st[it][4])))
                        if not vp.margin("second order", np.max(np.abs(e)), 1e-5): wrong = "%s: step %d is %s, the motion at %g s is %s" % (what, it, st[it][3], it * dt, q); break
                    if wrong is None: break
                    bad.append(wrong)
                # what the solver itself returns
                for move in (0, .2) if pi == 1 else (0,):      # from rest and in motion
                    d0 = k.dq_init + move * vec(n + 6, i, n, 53); q0 = k.q_init.copy(); d1 = d0.copy(); o = k.snd_order_inv_kin.solve(dt, q0, d1, k.com_dyn, k.lmom_dyn, k.amom_dyn, k.endeff_pos_ref, k.endeff_vel_ref, k.endeff_contact, k.joint_des.T, k.base_des.T)
                    if not (np.array_equal(q0, k.q_init) and np.array_equal(d1, d0) and np.array_equal(o[0][0], q0) and np.array_equal(o[1][0], d0)): ok = False; vp.fail("second:start", "%s: a start in motion at %s is %s in the motion" % (what, d0, o[1][0])); break
                    for it in range(N):
                        q, dq = o[0][it], o[1][it]; mo = v.mom(q, dq)
                        for key, a, b, tol in ((() if move else (("posture", q, st[it][3], 1e-9), ("velocity", dq, st[it][4], 1e-7))) + (("com", o[2][it], v.com(q), 1e-9), ("lmom", o[3][it], mo[:3], 1e-9), ("amom", o[4][it], mo[3:], 1e-9), ("feet", o[5][it], v.feet(q), 1e-9), ("feet velocity", o[6][it], v.vel(q, dq), 1e-6))):
                            if not vp.margin("solver", np.max(np.abs(a - b)), tol * (1 + np.max(np.abs(dq)))): ok = False; vp.fail("second:returned " + key, "%s: %s returned for step %d is %s, the motion has %s" % (what, key, it, a, b)); break
                        if not ok: break
                if len(bad) == 2: ok = False; vp.fail("second:motion", bad[0])
                vp.nontrivial(ok); vp.sample(what)

# the posture to start from
for n in (8, 12):
    for c in range(24 if T else 8):
        if not vp.nextcase("initial"): continue
        with vp.guard():
            v = VIEW[n]; s, ini, f = settings(n, 4, .05); sh = np.array([.02, .015 if n == 12 else 0., .02]) * vec(3, n, c, 61); fe = f + (np.array([.02, .01 if n == 12 else 0., .01]) * vec(12, n, c, 62).reshape(4, 3)); com = ini.com + sh; ini.com = com
            for e in range(4): ini.setEffPosition(e, fe[e])
            k = mk.MomentumKinematicsOptimizer()
            with quiet(): k.initialize(s, RobotWrapper=quad.Quadruped12 if n == 12 else quad.Quadruped); k.max_iterations = 300; k.optimize_initial_position(ini)
            q = k.q_init; what = "%d joints, com %s, feet %s" % (n, com, fe.ravel())
            if not vp.margin("initial feet", np.max(np.abs(v.feet(q) - fe)), 5e-3): vp.fail("initial:feet", "%s: feet off by %s" % (what, (v.feet(q) - fe).ravel()))
            elif not vp.margin("initial com", np.max(np.abs(v.com(q) - com)), 1e-2): vp.fail("initial:com", "%s: com off by %s" % (what, v.com(q) - com))
            elif not vp.margin("initial base", np.linalg.norm(pin.log3(v.rot(q))), .2): vp.fail("initial:base", "%s: base turned by %s" % (what, pin.log3(v.rot(q))))
            elif np.any(k.dq_init): vp.fail("initial:velocity", "%s: starts with velocity %s" % (what, k.dq_init))
            else: vp.nontrivial()
            vp.sample(what)

# ---- the planner that puts it together
from momentumopt.motion_planner import MotionPlanner
D1 = dict(SwingTrajViaZ=("etg", "z_offset"), WeightLinMomentumTracking=("ik", "w_lin_mom_tracking"), WeightAngMomentumTracking=("ik", "w_ang_mom_tracking"), WeightEndEffContact=("ik", "w_endeff_contact"), WeightEndEffTracking=("ik", "w_endeff_tracking"), WeightJointReg=("ik", "w_joint_regularization"),
          PGainEndEffTracking=("ik", "p_endeff_tracking"), PGainComTracking=("ik", "p_com_tracking"), PGainOrientationTracking=("ko", "reg_orientation"), PGainPositionTracking=("ko", "reg_joint_position"))
D2 = dict((k, (("k2" if o == "ik" else o), a)) for k, (o, a) in D1.items() if o != "ko"); D2.update(DGainEndEffTracking=("k2", "d_endeff_tracking"), PGainBaseOrientationTracking=("k2", "p_orient_tracking"), DGainBaseOrientationTracking=("k2", "d_orient_tracking"), PGainJointRegularization=("k2", "p_joint_regularization"), DGainJointRegularization=("k2", "d_joint_regularization"))
def objects(p): k = p.kin_optimizer; return dict(etg=k.endeff_traj_generator, ik=k.inv_kin, k2=k.snd_order_inv_kin, ko=k)
for second in (False, True):
    for nvj, nvb in ((0, 0), (2, 1), (1, 3)):
        if not vp.nextcase("settings"): continue
        with vp.guard():
            sf = "_second" if second else ""; over = dict(use_second_order_inv_kin=second); over["num_joint_viapoints" + sf], over["num_base_viapoints" + sf] = nvj, nvb
            over["joint_viapoints" + sf] = dict([("none", 0)] + [("via%d" % i, [.1 * (i + 1)] + [.5 + i + .1 * j for j in range(8)]) for i in range(nvj)]); over["base_viapoints" + sf] = dict([("none", 0)] + [("via%d" % i, [.1 * (i + 1)] + [.1 + i + .1 * j for j in range(3)]) for i in range(nvb)])
            settings(8, 5, .1, lqr=True, **over)
            with quiet():
                p = MotionPlanner(FILE, RobotWrapper=quad.Quadruped); tab = D2 if second else D1; ob = objects(p)
                if second: p.planner_setting.set(pm.PlannerVectorParam.PlannerVectorParam_PGainMomentumTracking_Second, np.array([9., 8, 7, 6, 5, 4]))
                for i, key in enumerate(sorted(tab)): p.planner_setting.set(getattr(pm.PlannerDoubleParam, "PlannerDoubleParam_" + key + ("_Second" if second else "")), 3. + i)
                p.init_from_settings()
            for i, key in enumerate(sorted(tab)):
                o, a = tab[key]; x = getattr(ob[o], a)
                if x != 3. + i: vp.fail("settings:" + key, "%s was set to %g, %s.%s is %s" % (key, 3. + i, o, a, x))
            k = p.kin_optimizer
            if second and not np.array_equal(ob["k2"].p_mom_tracking, [9., 8, 7, 6, 5, 4]): vp.fail("settings:PGainMomentumTracking", str(ob["k2"].p_mom_tracking))
            if bool(k.use_second_order_inv_kin) != second or k.n_via_joint != nvj or k.n_via_base != nvb: vp.fail("settings:kind", "%s %s %s" % (k.use_second_order_inv_kin, k.n_via_joint, k.n_via_base))
            vj = [np.asarray(w).ravel().tolist() for w in k.via_joint][:nvj]; vb = [np.asarray(w).ravel().tolist() for w in k.via_base][:nvb]
            if vj != [over["joint_viapoints" + sf]["via%d" % i] for i in range(nvj)] or vb != [over["base_viapoints" + sf]["via%d" % i] for i in range(nvb)]: vp.fail("settings:viapoints", "%s %s" % (vj, vb))
            vp.nontrivial(); vp.sample("second order %s viapoints %d %d" % (second, nvj, nvb))

f8 = VIEW[8].feet(quad.stance(MODELS[8], .24))
mv = lambda e, dx: f8[e] + np.array([dx, 0, 0])
GAITS = {"stand": [[(0, 100, f8[e])] for e in range(4)],
         "step": [[(0, .2, f8[0]), (.35, 100, mv(0, .03))]] + [[(0, 100, f8[e])] for e in (1, 2, 3)],
         "trot": [[(0, .15, f8[0]), (.3, 100, mv(0, .02))], [(0, .35, f8[1]), (.5, 100, mv(1, .02))], [(0, .35, f8[2]), (.5, 100, mv(2, .02))], [(0, .15, f8[3]), (.3, 100, mv(3, .02))]]}
for name in GAITS:
    for second in (False, True):
        for iters in ((1, 2) if not second else (1,)):
            for dx in (0., .01):
                if not vp.nextcase("planner"): continue
                with vp.guard():
                    N, dt = 14, .05; z = [1.] * 3
                    over = dict(use_second_order_inv_kin=second, kd_iterations=iters, com_displacement=[dx, 0., 0.], w_com=[100., 100, 100], w_lmom=[.1] * 3, w_amom=[.1] * 3, w_com_track=[10.] * 3, w_lmom_track=[1.] * 3, w_amom_track=[1.] * 3, w_frc_leg=[1.] * 3, p_endeff_tracking=10., p_com_tracking=3., w_joint_regularization=.01, w_endeff_contact=10.,
                                reg_orientation=.5, reg_joint_position=.5, swing_traj_via_z=.03, store_data=False)
                    over.update({"w_lin_mom_tracking_second": 100., "w_ang_mom_tracking_second": 10., "w_endeff_contact_second": 1e5, "w_endeff_tracking_second": 1e5, "p_endeff_tracking_second": 1e4, "d_endeff_tracking_second": 200., "p_com_tracking_second": 100., "p_orient_tracking_second": 10., "w_joint_regularization_second": .1, "swing_traj_via_z_second": .03, "p_mom_tracking_second": [10., 10, 10, .1, .1, .1]})
                    settings(8, N, dt, contacts=GAITS[name], lqr=True, **over); v = VIEW[8]
                    with quiet():
                        p = MotionPlanner(FILE, RobotWrapper=quad.Quadruped, with_lqr=not second); p.init_from_settings(); kin, eff, dyn, fb, ps, tv = p.optimize_motion(plot_com_motion=False)
                    what = "%s, second order %s, %d iterations, com by %g" % (name, second, iters, dx); k = p.kin_optimizer
                    if not consistent(8, k, dt, what, not second): continue
                    S = states(kin); Dy = dyn.dynamics_states; ok = True
                    # the plan: momentum of the forces and contacts where they are scheduled
                    for t in range(N):
                        for e in range(4):
                            now = [c for c in GAITS[name][e] if c[0] - 1e-9 <= (t + 1) * dt < c[1] - 1e-9]
                            if Dy[t].effActivation(e) != bool(now): ok = False; vp.fail("planner:contacts", "%s: step %d effector %d" % (what, t, e))
                            elif now and np.max(np.abs(Dy[t].effPosition(e) - now[0][2])) > 1e-6: ok = False; vp.fail("planner:contact position", "%s: step %d effector %d at %s" % (what, t, e, Dy[t].effPosition(e)))
                            elif now and not vp.margin("planned feet", np.max(np.abs(v.feet(S[t][3])[e] - now[0][2])), .01): ok = False; vp.fail("planner:feet", "%s: step %d: foot %d in contact is at %s, contact at %s" % (what, t, e, v.feet(S[t][3])[e], now[0][2]))
                        if t < N - 2 and not vp.margin("planned com", np.max(np.abs(S[t][0] - Dy[t].com)), .03): ok = False; vp.fail("planner:com", "%s: step %d: com of the posture %s, of the plan %s" % (what, t, S[t][0], Dy[t].com))
                        if not ok: break
                    if len(tv) != N or not np.allclose(np.diff(tv), dt): vp.fail("planner:time", "%s: %s" % (what, tv))
                    if fb is not None:
                        for t in (0, N - 1):
                            if not np.all(np.isfinite(fb.forceGain(t))): vp.fail("planner:feedback", "%s: %s" % (what, fb.forceGain(t)))
                    vp.nontrivial(ok); vp.sample(what)
shutil.rmtree(SCR, ignore_errors=True); shutil.rmtree(os.environ["MPLCONFIGDIR"], ignore_errors=True)
vp.finish()
