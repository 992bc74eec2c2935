"""P23: exported motions. At every millisecond the files hold the motion interpolated between the states of the plan, in the
documented order and units, the last state held to the end."""
import itertools, os, sys, io, contextlib, tempfile, shutil, types, re, glob
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1"); os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
REPO = os.path.join(os.environ.get("VP_REPO", "/repo"), "momentumopt/python"); sys.path.insert(0, REPO); sys.dont_write_bytecode = True
os.environ["MPLCONFIGDIR"] = tempfile.mkdtemp(prefix="mpl.", dir=".")
import numpy as np
import vp, quad
pm = types.ModuleType("pymomentum"); sys.modules["pymomentum"] = pm
for f in glob.glob(os.path.join(REPO, "momentumopt/**/*.py"), recursive=True):
    for n in re.findall(r"\bPlanner\w+Param_\w+", open(f, errors="replace").read()): setattr(pm, n, n)
for n in ("pysolver", "pysolverlqr"): sys.modules.setdefault(n, types.ModuleType(n))
quad.stub()
import momentumopt.motion_execution as ex
import momentumopt.kinoptpy.create_data_file as cf
import momentumopt.motion_planner as mp
vp.init(); T = vp.thorough()
def h(*a):
    x = 1469598103
    for v in a: x = ((x ^ (int(v) + 77)) * 1099511 + 12345) % 2147483647
    return x
def vec(n, *a): return np.array([(h(j, *a) % 2001 - 1000) / 1000. for j in range(n)])
NS = types.SimpleNamespace


class Dyn:
    """a state of the dynamic plan"""
    def __init__(s, t, seed, act, dt):
        s.dt, s.com, s.lmom, s.amom = dt, vec(3, t, seed, 1), vec(3, t, seed, 2), vec(3, t, seed, 3)
        s.f = np.array([(vec(3, t, seed, e, 4) * [.2, .2, 0] + [0, 0, .05 + .4 * abs(vec(1, t, seed, e, 5)[0])]) * act[e] for e in range(len(act))]); s.p = np.array([vec(3, t, seed, e, 6) for e in range(len(act))])
        s.act = list(act); s.lmomd, s.amomd = vec(3, t, seed, 7), vec(3, t, seed, 8)
    def effNum(s): return len(s.f)
    def effActivation(s, e): return bool(s.act[e])
    def effTorque(s, e): return np.zeros(3)
    def effCoP(s, e): return np.zeros(3)
    def effVelocity(s, e): return np.zeros(3)
    def effAcceleration(s, e): return np.zeros(3)
    def eff(s, name): return ["rf", "lf", "rh", "lh"].index(name)
    def effForce(s, e): return s.f[e].copy()
    def effPosition(s, e): return s.p[e].copy()
def kin(t, seed, n):
    q = vec(4, t // 3, seed, 11) + .1 * vec(4, t, seed, 11); q /= np.linalg.norm(q)
    if t and q @ kin.last < 0: q = -q
    kin.last = q; base, j, v, a = vec(3, t, seed, 12), vec(n, t, seed, 13), vec(6 + n, t, seed, 14), vec(6 + n, t, seed, 15)
    return NS(com=vec(3, t, seed, 16), lmom=vec(3, t, seed, 17), amom=vec(3, t, seed, 18), robot_posture=NS(base_position=base, base_orientation=q, joint_positions=j, generalized_joint_positions=np.hstack((base, q, j))),
              robot_velocity=NS(base_linear_velocity=v[:3], base_angular_velocity=v[3:6], joint_velocities=v[6:], generalized_joint_velocities=v), robot_acceleration=NS(base_linear_acceleration=a[:3], base_angular_acceleration=a[3:6], joint_accelerations=a[6:], generalized_joint_accelerations=a))
def motion(N, dts, seed, n, acts):
    """everything that is exported"""
    D = NS(dynamics_states=[Dyn(t, seed, acts[t], dts[t]) for t in range(N)]); K = NS(kinematics_states=[kin(t, seed, n) for t in range(N)])
    D.size = K.size = lambda: N
    E = dict((k, np.array([vec(12, t, seed, i, 21) for t in range(N)])) for i, k in enumerate(("trajectory", "velocity", "trajectory_wrt_base", "velocity_wrt_base")))
    class FB:
        def forceGain(s, t): return vec(108, t, seed, 31).reshape(12, 9)
    return D, K, E, FB()
def rows(D, K, E, F, w):
    """every exported quantity, one row per state"""
    S, Y = K.kinematics_states, D.dynamics_states
    r = dict(POSITION=[s.robot_posture.joint_positions for s in S], VELOCITY=[s.robot_velocity.joint_velocities for s in S], GENERALIZED_POSITION=[s.robot_posture.generalized_joint_positions for s in S],
             GENERALIZED_VELOCITY=[s.robot_velocity.generalized_joint_velocities for s in S], GENERALIZED_ACCELERATION=[s.robot_acceleration.generalized_joint_accelerations for s in S],
             FORCES=[y.f.ravel() for y in Y], COM=[s.com for s in S], LMOM=[s.lmom for s in S], AMOM=[s.amom for s in S], DYN_FEEDBACK=[F.forceGain(t) for t in range(len(S))])
    e = dict((k, r[k]) for k in ("COM", "LMOM", "AMOM", "FORCES", "DYN_FEEDBACK")); e.update(POSITION=E["trajectory_wrt_base"], VELOCITY=E["velocity_wrt_base"], POSITION_ABSOLUTE=E["trajectory"], VELOCITY_ABSOLUTE=E["velocity"],
             QUATERNION=[s.robot_posture.base_orientation for s in S], BASE_ANGULAR_VELOCITY=[s.robot_velocity.base_angular_velocity for s in S],
             CENTROIDAL_FORCES=[w * y.f.sum(0) for y in Y], CENTROIDAL_MOMENTS=[w * np.cross(y.p - y.com, y.f).sum(0) for y in Y])
    return {k: np.array(v) for k, v in r.items()}, {k: np.array(v) for k, v in e.items()}
def at(times, X, ts):
    """linear interpolation, held before the first and after the last state"""
    X = np.asarray(X); f = X.reshape(len(X), -1); return np.array([np.interp(ts, times, f[:, c]) for c in range(f.shape[1])]).T.reshape((len(ts),) + X.shape[1:])
def close(key, what, a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape: vp.fail(key, "%s: shape %s, expected %s" % (what, a.shape, b.shape)); return False
    e = np.abs(a - b); bad = ~(e <= tol * (1 + np.abs(b)))
    if bad.any(): i = np.argwhere(bad)[0]; vp.fail(key, "%s: entry %s is %.9g, expected %.9g" % (what, tuple(i), a[tuple(i)], b[tuple(i)])); return False
    return True
def quats(key, what, a, times, Q, ts):
    """orientations: linear, normalised or spherical interpolation"""
    lin = at(times, Q, ts); a = np.asarray(a)
    if a.shape != lin.shape: vp.fail(key, "%s: shape %s, expected %s" % (what, a.shape, lin.shape)); return False
    if np.all(np.abs(a - lin) < 1e-9): return True
    nrm = lin / np.linalg.norm(lin, axis=1)[:, None]
    if np.all(np.abs(a - nrm) < 1e-9): return True
    i = np.clip(np.searchsorted(times, ts, side="right") - 1, 0, len(times) - 2) if len(times) > 1 else np.zeros(len(ts), int); out = []
    for t, k in zip(ts, i):
        k2 = min(k + 1, len(times) - 1); s = np.clip((t - times[k]) / (times[k2] - times[k]) if k2 > k else 0, 0, 1); o = np.arccos(np.clip(Q[k] @ Q[k2], -1, 1))
        out.append(Q[k] if o < 1e-9 else (np.sin((1 - s) * o) * Q[k] + np.sin(s * o) * Q[k2]) / np.sin(o))
    return close(key, what, a, out, 1e-8)


# ---- interpolation at single times
def times_of(kind, N, dt):
    if kind == "uniform": return np.cumsum([0.] + [dt] * (N - 1))
    return np.cumsum([0.] + [dt * (1 + (i % 3)) / 2. for i in range(N - 1)])
for N in range(1, 8 if T else 6):
    for kind in ("uniform", "varying"):
        for dt in (.1, .05, .125):
            for n in (8, 12):
                for s in range(4 if T else 1):
                    if not vp.nextcase("interpolation"): continue
                    with vp.guard():
                        tv = times_of(kind, N, dt); acts = [[int(h(t, e, s) % 2) for e in range(4)] for t in range(N)]; D, K, E, F = motion(N, [dt] * N, h(N, s), n, acts); r, e = rows(D, K, E, F, 23.5)
                        ts = np.array(sorted(set([0., tv[-1] + .01, tv[-1] + 3.] + [x for t in range(N) for x in (tv[t], tv[t] + dt * .001)] + [a + (b - a) * g for a, b in zip(tv, tv[1:]) for g in (.25, .5, .75, .999)]))); what = "%d states, %s steps of %g" % (N, kind, dt); ok = True
                        for k, X in sorted(r.items()):
                            fn = ex.desired_state(k, tv, optimized_sequence=K, dynamics_feedback=F, optimized_dyn_plan=D); got = [np.array(fn(t), dtype=float) for t in ts]; want = at(tv, X, ts)
                            ok = all(g.shape == w.shape for g, w in zip(got, want)) and close("interpolation:desired_state:" + k, what + " at %s" % ts, np.array(got), want) and ok
                        for k, X in sorted(e.items()):
                            fn = ex.interpolate(k, tv, optimized_motion_eff=E, optimized_sequence=K, dynamics_feedback=F, optimized_dyn_plan=D, robot_weight=23.5); got = np.array([fn(t) for t in ts], dtype=float)
                            ok = (quats("interpolation:" + k, what, got, tv, X, ts) if k == "QUATERNION" else close("interpolation:" + k, what + " at %s" % ts, got, at(tv, X, ts))) and ok
                        vp.nontrivial(ok); vp.sample(what)

# ---- the time of each state
for N in range(1, 40 if T else 20):
    for dt in (.1, .05, .01, .003):
        if not vp.nextcase("time"): continue
        with vp.guard():
            tv = np.asarray(mp.create_time_vector(NS(dynamics_states=[NS(dt=dt)] * N))); vp.nontrivial(close("time:vector", "%d steps of %g" % (N, dt), tv, np.arange(N) * dt, 1e-12)); vp.sample("%d steps of %g" % (N, dt))

# ---- files
HOME = os.getcwd()
def load(d): return {os.path.basename(f): np.loadtxt(f, ndmin=2) for f in glob.glob(os.path.join(d, "*"))}
def number(X): return np.hstack((np.arange(len(X))[:, None], X))
def legs(X, order): return X.reshape(len(X), 4, -1)[:, order].reshape(len(X), -1)
QP = [1, 0, 3, 2]        # FR FL HR HL -> FL FR HL HR
LQ = [3, 2, 1, 0]
HOR = [(11, .1), (10, .1), (21, .05), (12, .1), (2, .5), (5, .125), (3, .015), (9, .125), (13, .04), (3, .502)] + ([(31, .1), (41, .05), (26, .04), (18, .061), (101, .01), (2, .999), (2, 1.002), (6, .2002)] if T else [])
for hi, (N, dt) in enumerate(HOR):
    for n in (8, 12):
        for s in range(3 if T else 1):
            for kind in ("plain", "qp", "lqr"):
                if not vp.nextcase("files"): continue
                w = (23.5, 9.81, 40.)[s]; acts = [[int(h(t // 2, e, s, N) % 3 > 0) for e in range(4)] for t in range(N)]; D, K, E, F = motion(N, [dt] * N, h(N, s), n, acts); r, e = rows(D, K, E, F, w); tv = np.cumsum([0.] + [dt] * (N - 1))
                what = "%s files of %d states, steps of %g, %d joints" % (kind, N, dt, n); d = tempfile.mkdtemp(prefix="p23.", dir=HOME); ok = True
                try:
                    os.chdir(d)
                    with vp.guard(), contextlib.redirect_stdout(io.StringIO()):
                        pl = NS(dyn_optimizer=NS(dynamicsSequence=lambda: D), kin_optimizer=NS(kinematics_sequence=K, motion_eff=E), dynamics_feedback=F, planner_setting=NS(get=lambda k: {"PlannerDoubleParam_RobotWeight": w}[k]), with_lqr=kind == "lqr")
                        if kind == "qp": mp.MotionPlanner.save_qp_files(pl)
                        else: mp.MotionPlanner.save_files(pl)
                        got = load(d)
                        def file(name, want, tol=1e-9, sel=None):
                            if name not in got: vp.fail("files:" + name, what + ": not written"); return False
                            return close("files:" + name, what, got[name], want, tol)
                        if kind != "qp":
                            P = int(round(tv[-1] * 1000)); ts = np.arange(P) / 1e3
                            for name, k, f in (("positions", "POSITION", 1), ("velocities", "VELOCITY", 1), ("forces", "FORCES", w), ("generalized_positions", "GENERALIZED_POSITION", 1), ("generalized_velocities", "GENERALIZED_VELOCITY", 1),
                                               ("generalized_acceleration", "GENERALIZED_ACCELERATION", 1), ("com_old", "COM", 1), ("lmom_old", "LMOM", 1), ("amom_old", "AMOM", 1)): ok = file("quadruped_%s.dat" % name, number(f * at(tv, r[k], ts)), 1e-7) and ok
                            if kind == "lqr":
                                P = 1000 * int(np.ceil(tv[-1] - .001 - 1e-9)); ts = np.arange(P) / 1e3
                                ok = file("quadruped_positions_abs_with_horizon_part.dat", number(legs(at(tv, e["POSITION_ABSOLUTE"], ts), LQ))) and ok
                        else:
                            P = 1000 * int(np.ceil(tv[-1] - .001 - 1e-9)); ts = np.arange(P) / 1e3; I = lambda k: at(tv, e[k], ts); pad = lambda X: np.concatenate((X.reshape(len(X), 4, 3), np.zeros((len(X), 4, 3))), 2).reshape(len(X), 24)
                            for name, X in (("positions", number(at(tv, r["POSITION"], ts))), ("velocities", number(at(tv, r["VELOCITY"], ts))), ("positions_eff", pad(legs(I("POSITION"), QP))), ("velocities_eff", pad(legs(I("VELOCITY"), QP))),
                                            ("com", number(I("COM"))), ("com_vel", number(I("LMOM") / (w / 9.81))), ("centroidal_forces", number(I("CENTROIDAL_FORCES"))), ("centroidal_moments", number(I("CENTROIDAL_MOMENTS"))),
                                            ("base_ang_velocities", number(I("BASE_ANGULAR_VELOCITY"))), ("positions_abs", number(legs(I("POSITION_ABSOLUTE"), QP))), ("velocities_abs", number(legs(I("VELOCITY_ABSOLUTE"), QP)))):
                                ok = file("quadruped_%s.dat" % name, X) and ok
                            q = got.get("quadruped_quaternion.dat"); ok = q is not None and q.shape == (P, 5) and np.array_equal(q[:, 0], np.arange(P)) and quats("files:quaternion", what, q[:, 1:], tv, e["QUATERNION"], ts) and ok
                            if q is None or q.shape != (P, 5): vp.fail("files:quaternion", "%s: %s" % (what, None if q is None else q.shape))
                            fz = legs(I("FORCES"), QP)[:, 2::3]; c = got.get("quadruped_contact_activation.dat")
                            if c is None or c.shape != (P, 5) or not np.array_equal(c[:, 0], np.arange(P)): ok = False; vp.fail("files:contact", what + ": not written")
                            else:
                                clear = (fz == 0) | (fz > 1e-9); bad = np.argwhere(clear & (c[:, 1:] != (fz > 0)))
                                if len(bad): ok = False; vp.fail("files:contact", "%s: at %d ms leg %d is marked %g, its vertical force is %g" % (what, bad[0][0], bad[0][1], c[tuple(bad[0] + [0, 1])], fz[tuple(bad[0])]))
                        vp.count("rows", P)
                finally:
                    os.chdir(HOME); shutil.rmtree(d, ignore_errors=True)
                vp.nontrivial(ok); vp.sample(what)
shutil.rmtree(os.path.join(HOME, os.path.basename(os.environ["MPLCONFIGDIR"])), ignore_errors=True)
vp.finish()
