# P18: the feedback gains of the kinodynamic (Python) centroidal regulator.
# Oracle: own rigid body step with scipy rotations, high order differences of it, dense Riccati.
import os, sys, itertools, shutil, tempfile
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(REPO, "momentumopt/python"))
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ[k] = "1"
import numpy as np
from scipy.spatial.transform import Rotation as Rot
import vp
vp.init()
from momentumopt.kinoptpy import lqr_gain_manifold as M

BASE = tempfile.mkdtemp(prefix="p18.", dir=".")
NAMES = ["com", "com_vel", "quaternion", "base_ang_velocities", "centroidal_forces", "centroidal_moments", "contact_activation"]


def hsh(*a):
    h = 1469598103934665603
    for v in a:
        h = ((h ^ (v & 0xffffffff)) * 1099511628211) & (2**64 - 1)
        h ^= h >> 29; h = (h * 0xbf58476d1ce4e5b9) & (2**64 - 1); h ^= h >> 32
    return h >> 17


def grid(seed, n, vals):
    return np.array([vals[hsh(seed, i) % len(vals)] for i in range(n)], float)


AXES = [np.array(a, float) / np.linalg.norm(a) for a in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 1), (-2, 1, .5)]]
ROTS = [Rot.identity()] + [Rot.from_rotvec(a * AXES[i]) for i in range(6) for a in (0.3, 1.2, 2.5, -0.7)]


def make(seed, N, pattern, extra=None):
    """pattern: N+1 tuples of contact activations"""
    D = {
        "com": [grid(seed * 7 + t, 3, [-.2, 0, .1, .3]) + [0, 0, .3] for t in range(N + 1)],
        "com_vel": [grid(seed * 7 + t + 100, 3, [-1, -.5, 0, .25, .5]) for t in range(N + 1)],
        "quaternion": [ROTS[hsh(seed, t, 5) % len(ROTS)].as_quat() for t in range(N + 1)],
        "base_ang_velocities": [grid(seed * 7 + t + 200, 3, [-2, -.5, 0, 1, 3]) for t in range(N + 1)],
        "centroidal_forces": [grid(seed * 7 + t + 300, 3, [-5, 0, 2, 10]) + [0, 0, 10] for t in range(N + 1)],
        "centroidal_moments": [grid(seed * 7 + t + 400, 3, [-.3, 0, .1, .2]) for t in range(N + 1)],
        "contact_activation": [np.array(p, float) for p in pattern],
    }
    d = tempfile.mkdtemp(dir=BASE)
    for k in NAMES:
        np.savetxt(os.path.join(d, "quadruped_%s.dat" % k), np.array([np.hstack((t, v)) for t, v in enumerate(D[k])]), fmt="%.17e")
    return d, D, (lambda: shutil.rmtree(d, ignore_errors=True))


def step(s, act, x, u, dt):
    R = Rot.from_quat(x[6:10]); Rm = R.as_matrix()
    I = Rm @ np.array(s.inertia_com_frame) @ Rm.T
    w = x[10:13]
    return np.hstack((x[:3] + dt * x[3:6], x[3:6] + dt / s.mass * (act * u[:3] - s.mass * np.array([0, 0, 9.81])),
                      (Rot.from_rotvec(dt * w) * R).as_quat(),
                      w + dt * np.linalg.solve(I, act * u[3:] - np.cross(w, I @ w))))


def plus(x, d):
    return np.hstack((x[:6] + d[:6], (Rot.from_rotvec(d[6:9]) * Rot.from_quat(x[6:10])).as_quat(), x[10:] + d[9:]))


def minus(b, a):  # b (-) a
    return np.hstack((b[:6] - a[:6], (Rot.from_quat(b[6:10]) * Rot.from_quat(a[6:10]).inv()).as_rotvec(), b[10:] - a[10:]))


def num_hess(f, n, h=1e-2):
    e = np.eye(n) * h
    return np.array([[(f(e[i] + e[j]) - f(e[i] - e[j]) - f(e[j] - e[i]) + f(-e[i] - e[j])) / (4 * h * h) if j <= i else 0 for j in range(n)] for i in range(n)])


def sym(H):
    return H + np.tril(H, -1).T


def num_jac(f, n, h=1e-3):
    J = []
    for i in range(n):
        e = np.zeros(n); e[i] = h
        J.append((8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * h))
    return np.array(J).T


def derivs(s, act, x, u, dt):
    f0 = step(s, act, x, u, dt)
    fx = num_jac(lambda d: minus(step(s, act, plus(x, d), u, dt), f0), 12)
    fu = num_jac(lambda d: minus(step(s, act, x, u + d, dt), f0), 6)
    return fx, fu


def same_rot(q1, q2):
    return min(np.abs(q1 - q2).max(), np.abs(q1 + q2).max())


def spd(seed, n, lo):
    A = grid(seed, n * n, [-.4, 0, 0, .3]).reshape(n, n)
    return A @ A.T + lo * np.eye(n)


def state(seed):
    return np.hstack((grid(seed, 3, [-.2, 0, .1, .3]), grid(seed + 1, 3, [-1, 0, .5]), ROTS[hsh(seed, 3) % len(ROTS)].as_quat(), grid(seed + 2, 3, [-2, 0, 1, 4])))


def quat_sections():
    d, D, clean = make(1, 1, [(1, 0, 0, 0)] * 2)
    s = M.CentroidalLqr(d); clean()
    angles = [0, 1e-9, 1e-4, 9.9e-4, 1e-3, 1.01e-3, 1.99e-3, 2e-3, 2.01e-3, .01, .5, 1.5, 3.0, 3.14]
    for a, ax, qi in itertools.product(angles, range(len(AXES)), range(len(ROTS))):
        if not vp.nextcase("quaternions"): continue
        with vp.guard():
            w = a * AXES[ax]; q = ROTS[qi].as_quat(); r = Rot.from_rotvec(w)
            e = s.exp_quaternion(.5 * w)
            if not same_rot(e, r.as_quat()) < 1e-9: vp.fail("exponential", "exp(%s/2) = %s, expected %s" % (w, e, r.as_quat()))
            if not np.abs(s.log_quaternion(r.as_quat() * (1 if r.as_quat()[3] >= 0 else -1)) - w).max() < 1e-8: vp.fail("logarithm", "log of the rotation %s is %s" % (w, s.log_quaternion(r.as_quat())))
            if not np.abs(s.quaternion_to_rotation(q) - ROTS[qi].as_matrix()).max() < 1e-12: vp.fail("rotation matrix", "of %s" % q)
            p = s.quaternion_product(r.as_quat(), q)
            if not same_rot(p, (r * ROTS[qi]).as_quat()) < 1e-12: vp.fail("product", "%s * %s = %s" % (r.as_quat(), q, p))
            n = s.integrate_quaternion(q, w)
            if not same_rot(n, (r * ROTS[qi]).as_quat()) < 1e-9: vp.fail("integration", "of %s by %s is %s" % (q, w, n))
            if not np.abs(s.quaternion_difference(q, n) - w).max() < 1e-7: vp.fail("difference", "between %s and %s is %s, expected %s" % (q, n, s.quaternion_difference(q, n), w))
            vp.nontrivial(a > 0); vp.sample("rotation by %g about %s from %s" % (a, AXES[ax], q))


def step_section():
    nst = 24 if vp.thorough() else 8
    for seed, act, dt, far in itertools.product(range(nst), (0., 1.), (1e-3, 1e-2, .1), range(2)):
        if not vp.nextcase("steps"): continue
        d, D, clean = make(seed, 2, [(act, 0, 0, 0)] * 3)
        with vp.guard():
            s = M.CentroidalLqr(d); s.dt = dt
            x = state(10 * seed); u = grid(seed, 6, [-20, -1, 0, 3, 15]) * (1, 1, 1, .05, .05, .05)
            got, ex = s.integrate_step(1, x.copy(), u.copy()), step(s, act, x, u, dt)
            err = np.abs(minus(got, ex)).max()
            if not err < 1e-9: vp.fail("step", "dt %g contact %g x %s u %s: %s instead of %s" % (dt, act, x, u, got, ex))
            vv = s.integrate_veocity(x[3:6], u[:3]); ww = s.integrate_angular_velocity(x[10:13], x[6:10], u[3:]); e1 = step(s, 1., x, u, dt)
            if not np.abs(vv - e1[3:6]).max() < 1e-9: vp.fail("step", "velocity alone: %s instead of %s" % (vv, e1[3:6]))
            if not np.abs(ww - e1[10:]).max() < 1e-9: vp.fail("step", "angular velocity alone: %s instead of %s" % (ww, e1[10:]))
            dx = grid(seed + 50, 12, [-.4, 0, .2, .9]) * (1. if far else 1e-4)
            inc = s.increment_x(x.copy(), dx.copy())
            if not np.abs(minus(inc, plus(x, dx))).max() < 1e-9: vp.fail("increment", "%s by %s is %s" % (x, dx, inc))
            df = s.diff_x(x, plus(x, dx))
            if not np.abs(df - dx).max() < 1e-8: vp.fail("difference", "of states %s and the one %s away: %s" % (x, dx, df))
            # derivatives
            fx, fu = s.dynamics_derivatives(1, x.copy(), u.copy())
            ex, eu = derivs(s, act, x, u, dt)
            for nm, g, e in (("state", fx, ex), ("control", fu, eu)):
                er = np.abs(g - e).max()
                if not vp.margin('derivative', er, 3e-6 * (1 + np.abs(e).max())): vp.fail("derivative", "with respect to the %s, off by %g at dt %g contact %g:\n%s\ninstead of\n%s" % (nm, er, dt, act, g, e))
            vp.nontrivial(); vp.sample("x %s u %s contact %g dt %g" % (x, u, act, dt))
        clean()


def cost_section():
    for seed, t, far, wq in itertools.product(range(16 if vp.thorough() else 6), range(3), (0., .01, .4), range(3)):
        if not vp.nextcase("costs"): continue
        d, D, clean = make(seed, 2, [(1, 0, 0, 0), (seed % 2, 0, 0, 0), (1, 0, 0, 0)])
        with vp.guard():
            s = M.CentroidalLqr(d)
            if wq: s.Q = [spd(seed + 3 * k * (wq - 1), 12, .5) for k in range(3)]; s.R = [spd(seed + 90 + k * (wq - 1), 6, .2) for k in range(2)]
            dx = far * grid(seed + 40, 12, [-1, 0, .5, 1]); x = plus(s.x0[t], dx); u = grid(seed + 41, 6, [-2, 0, 1])
            c = s.cost(t, x.copy(), u.copy())
            quad = dx @ s.Q[t] @ dx
            if t == 2:
                # the terminal cost has no control term; its weight is one half or one
                ok = min(abs(c - quad), abs(c - .5 * quad)) < 1e-8
            else:
                ok = abs(c - .5 * quad - .5 * u @ s.R[t] @ u) < 1e-8
            if not ok: vp.fail("cost", "at step %d: %g" % (t, c))
            cx, cu, cxx, cuu, cxu = s.cost_derivatives(t, x.copy(), u.copy())
            f = lambda z: s.cost(t, plus(x, z[:12]), u + z[12:])
            h = 1e-2
            g = num_jac(lambda z: np.array([f(z)]), 18, h)[0]
            if not vp.margin('gradient', np.abs(np.hstack((cx, cu)) - g).max(), 1e-5 * (1 + abs(c))): vp.fail("gradient", "of the cost at step %d, %g away: %s instead of %s" % (t, far, np.hstack((cx, cu)), g))
            H = sym(num_hess(f, 18, h))
            got = np.block([[cxx, cxu], [np.transpose(cxu), cuu]])
            er = np.abs(got - H).max()
            if not vp.margin('curvature', er, 4e-3 * (1 + abs(c))): vp.fail("curvature", "of the cost at step %d, %g away, off by %g:\n%s\ninstead of\n%s" % (t, far, er, got, H))
            vp.nontrivial(); vp.sample("step %d, %g away from the reference, weights %d" % (t, far, wq))
        clean()


def gains_section():
    plans = []
    for N in range(1, 6 if vp.thorough() else 5):
        for p in itertools.product((0, 1), repeat=N): plans.append((N, p))
    for N in (12, 25) if vp.thorough() else (12,):
        for c in range(3): plans.append((N, tuple(int((t * (c + 1)) % 5 < 3) for t in range(N))))
    for (N, p), seed, wq in itertools.product(plans, range(3 if vp.thorough() else 1), range(3)):
        if not vp.nextcase("gains"): continue
        # the effector in contact changes from step to step; the activation after the last control does not matter
        pat = [[0, 0, 0, 0] for _ in range(N + 1)]
        for t in range(N): pat[t][hsh(seed, t) % 4] = p[t]
        pat[N][0] = hsh(seed, N) % 2
        d, D, clean = make(seed + 17 * N, N, pat)
        with vp.guard():
            s = M.CentroidalLqr(d)
            if abs(s.dt - 1e-3) > 1e-12: vp.fail("step length", "%g, the files hold one line per millisecond" % s.dt)
            if s.N != N: vp.fail("horizon", "%d instead of %d" % (s.N, N))
            if list(s.active_contacts)[:N] != [float(a) for a in p]: vp.fail("contacts", "%s are taken as %s" % (pat, s.active_contacts))
            x = np.hstack([np.array(D[k]) for k in NAMES[:4]]); U = np.hstack((np.array(D["centroidal_forces"]), np.array(D["centroidal_moments"])))[:N]
            if not (s.xp.shape == x.shape and np.abs(s.xp[0] - x[0]).max() < 1e-12 and s.u0.shape == U.shape and np.abs(s.u0 - U).max() < 1e-12):
                vp.fail("loading", "states %s controls %s" % (s.xp, s.u0))
            if not np.abs(s.xp - x).max() < 1e-12: vp.fail("loading", "the planned states %s are held as %s" % (x, s.xp))
            xx = x[0]
            for t in range(N + 1):
                if not np.abs(minus(s.x0[t], xx)).max() < 1e-8: vp.fail("reference", "state %d is %s instead of %s" % (t, s.x0[t], xx)); break
                if t < N: xx = step(s, p[t], xx, U[t], s.dt)
            if wq: s.Q = [spd(seed + 3 * k * (wq - 1), 12, .5) for k in range(N + 1)]; s.R = [spd(seed + 90 + k * (wq - 1), 6, .002) * 1e-2 for k in range(N)]
            s.compute_gains()
            z0 = np.zeros(6)
            f = lambda z: s.cost(N, plus(s.x0[N], z), z0)
            V = sym(num_hess(f, 12, 1e-2))
            v, val = np.zeros(12), 0.
            for t in reversed(range(N)):
                A, B = derivs(s, p[t], s.x0[t], s.u0[t], s.dt)
                Qu = s.R[t] @ s.u0[t] + B.T @ v; Qx = A.T @ v
                Quu = s.R[t] + B.T @ V @ B; Qxu = A.T @ V @ B
                K = np.linalg.solve(Quu, Qxu.T); k = np.linalg.solve(Quu, Qu)
                val = val + .5 * s.u0[t] @ s.R[t] @ s.u0[t] - .5 * Qu @ k
                for nm, g, e in (("feedback", s.kfb[t], K), ("feedforward", s.kff[t], k)):
                    er = np.abs(g - e).max()
                    if not vp.margin(nm, er, 2e-3 * (1e-2 + np.abs(e).max())): vp.fail(nm, "of step %d of %s, weights %d, off by %g:\n%s\ninstead of\n%s" % (t, p, wq, er, g, e))
                if not p[t] and not np.abs(s.kfb[t]).max() < 1e-6: vp.fail("feedback", "in flight at step %d of %s" % (t, p))
                if not vp.margin('value', abs(s.value[t] - val), 2e-3 * (1e-3 + abs(val))): vp.fail("value", "of step %d of %s is %g instead of %g" % (t, p, s.value[t], val))
                v = Qx - Qxu @ k; V = A.T @ V @ A + s.Q[t] - Qxu @ K
                if not vp.margin('value_dx', np.abs(s.value_dx[t] - v).max(), 2e-3 * (1e-2 + np.abs(v).max())): vp.fail("value gradient", "of step %d of %s is %s instead of %s" % (t, p, s.value_dx[t], v))
                if not vp.margin('value_dxdx', np.abs(s.value_dxdx[t] - V).max(), 4e-3 * np.abs(V).max()): vp.fail("value curvature", "of step %d of %s" % (t, p))
            F = np.loadtxt(os.path.join(d, "quadruped_centroidal_gains_manifold.dat"), ndmin=2)
            if not (F.shape == (N, 72) and np.abs(F - np.array(s.kfb).reshape(N, 72)).max() < 1e-9): vp.fail("gains file", "does not hold the gains")
            vp.nontrivial(); vp.sample("contacts %s weights %d" % (p, wq))
        clean()
    # plans whose orientation is no rotation are refused
    for t, sc in itertools.product(range(3), (.5, .9, 1.2)):
        if not vp.nextcase("refused"): continue
        d, D, clean = make(3, 3, [(1, 0, 0, 0)] * 4)
        q = np.loadtxt(d + "/quadruped_quaternion.dat"); q[t, 1:] *= sc; np.savetxt(d + "/quadruped_quaternion.dat", q)
        try:
            M.CentroidalLqr(d); vp.fail("not refused", "orientation %s of step %d" % (q[t, 1:], t))
        except AssertionError: vp.nontrivial()
        except Exception as e: vp.nontrivial()
        clean()


try:
    quat_sections(); step_section(); cost_section(); gains_section()
finally:
    shutil.rmtree(BASE, ignore_errors=True)
vp.finish()
