"""P21: the reference motion of the end-effectors and of the posture between viapoints: at rest at every contact (viapoint),
the smoothest motion of its kind in between, over the raised point in the middle of a swing - for every contact pattern."""
import itertools, os, re, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import vp
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "momentumopt/python"))
fake = types.ModuleType("pymomentum")
for r, _, fs in os.walk(os.path.join(REPO, "momentumopt/python")):
    for f in fs:
        if f.endswith(".py"):
            for n in re.findall(r"\bPlanner\w+Param_\w+", open(os.path.join(r, f), errors="replace").read()): setattr(fake, n, n)
fake.KinematicsSequence = type("KinematicsSequence", (), {})
sys.modules["pymomentum"] = fake
w = types.ModuleType("momentumopt.robots.blmc_robot_wrapper"); w.QuadrupedWrapper = object
sys.modules["momentumopt.robots.blmc_robot_wrapper"] = w
import momentumopt.kinoptpy.momentum_kinematics_optimizer as mk
import momentumopt.kinoptpy.min_jerk_traj as mj
vp.init(); T = vp.thorough()


def h(*a):
    x = 1469598103
    for v in a: x = ((x ^ (int(v) + 77)) * 1099511 + 12345) % 2147483647
    return x
def num(*a): return (h(*a) % 2001 - 1000) / 1000.


def swing(t0, t1, a, b, via, t):
    """value and slope of the only sextic with rest (zero slope and curvature) at both ends and a given middle"""
    L = t1 - t0; s = (t - t0) / L; c = 0. if via is None else via - (a + b) / 2.
    return a + (b - a) * (10 * s**3 - 15 * s**4 + 6 * s**5) + 64 * c * (s * (1 - s))**3, ((b - a) * 30 * (s * (1 - s))**2 + 192 * c * (s * (1 - s))**2 * (1 - 2 * s)) / L


# ---- one polynomial
for t0 in (0., 1., 3.5, 20., 100., 250., 400., 1000.):
    for L in (1., 2., 3., 5., 10., 40., .5):
        for a, b, via in ((0., 1., None), (.2, .3, .35), (.3, .3, .4), (-1., 2., None), (0., 0., 0.), (.1, .1, None), (2., -1., 5.), (.25, .05, .1)):
            if not vp.nextcase("polynomial"): continue
            with vp.guard():
                p = mj.poly_points([t0, t0 + L], a, b, via)
                for k in range(17):
                    t = t0 + L * k / 16.; v, d = swing(t0, t0 + L, a, b, via, t); sc = max(abs(a), abs(b), abs(via or 0), .1); vp.count("points")
                    if not vp.margin("polynomial", abs(p.eval(t) - v), 1e-7 * sc): vp.fail("polynomial:value", "over [%g,%g] from %g to %g via %s: %.9g at %g, expected %.9g" % (t0, t0 + L, a, b, via, p.eval(t), t, v)); break
                    if not vp.margin("slope", abs(p.deval(t) - d), 1e-7 * sc / L): vp.fail("polynomial:slope", "over [%g,%g] from %g to %g via %s: slope %.9g at %g, expected %.9g" % (t0, t0 + L, a, b, via, p.deval(t), t, d)); break
                vp.nontrivial(a != b or via is not None); vp.sample("[%g,%g] %g -> %g via %s" % (t0, t0 + L, a, b, via))
for y in (0., 1.5, -2.):
    if vp.nextcase("polynomial"):
        with vp.guard():
            p = mj.constant_poly(y)
            for t in (0., 1., 7.5, -3.):
                if p.eval(t) != y or p.deval(t) != 0.: vp.fail("polynomial:constant", "%g: %g, slope %g at %g" % (y, p.eval(t), p.deval(t), t))


# ---- end-effector references
class State:
    def __init__(self, act, pos): self.a, self.p = act, pos
    def effActivation(self, e): return bool(self.a[e])
    def eff(self, e): return self.p[e].copy()
    effPosition = eff
    def effOrientation(self, e): return np.zeros(4)
    def effVelocity(self, e): return np.zeros(3)
    effAcceleration = effForce = effTorque = effCoP = effVelocity
    def effNum(self): return len(self.a)
    endeffectorNum = effNum
    def effsActivation(self): return [bool(x) for x in self.a]
    com = lmom = amom = np.zeros(3)
    time = dt = .1
class Seq:
    @property
    def size(self): return len(self.dynamics_states)
    def __len__(self): return len(self.dynamics_states)
class Opt: pass
NAMES = ["FL_ANKLE", "FR_ANKLE", "HL_ANKLE", "HR_ANKLE", "XX_ANKLE"]


def contacts(act):
    out, n = [], len(act); i = 0
    while i < n:
        if act[i]:
            j = i
            while j + 1 < n and act[j + 1]: j += 1
            out.append((i, j)); i = j
        i += 1
    return out


def drive(acts, dt, z, seed, lift):
    """acts: one pattern per end-effector"""
    n, ne = len(acts[0]), len(acts)
    pos = np.zeros((n, ne, 3))
    for e, act in enumerate(acts):
        for t in range(n): pos[t, e] = [50. + h(seed, e, t, 5) % 7, -60., 70. + t]                 # states without contact say nothing
        for c, (a, b) in enumerate(contacts(act)):
            pos[a:b + 1, e] = [num(seed, e, c, 1), num(seed, e, c, 2), (num(seed, e, c, 3) * .2 if lift else 0.)]
        if not any(act): pos[:, e] = [num(seed, e, 8), num(seed, e, 9), .3]
    o = Opt(); o.dt, o.num_time_steps, o.eff_names = dt, n, NAMES[:ne]
    o.dynamic_sequence = Seq(); o.dynamic_sequence.dynamics_states = [State([a[t] for a in acts], pos[t]) for t in range(n)]
    g = mk.EndeffectorTrajectoryGenerator(); g.z_offset = z
    before = pos.copy(); r = g(o)
    if not np.array_equal(before, pos): vp.fail("reference:input", "the plan was changed")
    return pos, r


def judge(acts, dt, z, seed, lift):
    pos, (P, V, C) = drive(acts, dt, z, seed, lift)
    n, ne = len(acts[0]), len(acts)
    if P.shape != (n, ne, 3) or V.shape != (n, ne, 3) or C.shape != (n, ne): vp.fail("reference:shape", "%s %s %s" % (P.shape, V.shape, C.shape)); return
    where = lambda e, t: "effector %d of %s (dt %g, raise %g) at step %d: " % (e, "".join(str(int(a)) for a in acts[e])[-60:], dt, z, t)
    for e, act in enumerate(acts):
        cs = contacts(act)
        for t in range(n):
            vp.count("points")
            if C[t, e] != (1. if act[t] else 0.): vp.fail("reference:contact", where(e, t) + "contact %g" % C[t, e]); return
            if not np.all(np.isfinite(P[t, e])) or not np.all(np.isfinite(V[t, e])): vp.fail("reference:finite", where(e, t) + "%s %s" % (P[t, e], V[t, e])); return
            want, vel, kind = None, np.zeros(3), "rest"
            if not cs: want, kind = pos[0, e], "without contact"
            elif act[t]: want, kind = pos[t, e], "in contact"
            elif t > cs[-1][1]: want, kind = pos[cs[-1][1], e], "after the last contact"
            elif t > cs[0][1]:
                i = max(k for k in range(len(cs)) if cs[k][1] < t); a, b = cs[i][1], cs[i + 1][0]; kind = "swing from %d to %d" % (a, b)
                q = [swing(a, b, pos[a, e, d], pos[b, e, d], z + pos[a, e, 2] if d == 2 else None, float(t)) for d in range(3)]
                want, vel = np.array([x[0] for x in q]), np.array([x[1] for x in q]) / dt; vp.count("swing_points")
            if want is None: continue                                                              # before the first contact
            if not vp.margin("position", np.max(np.abs(P[t, e] - want)), 1e-6): vp.fail("reference:position", where(e, t) + "%s: %s, expected %s" % (kind, P[t, e], want)); return
            if not vp.margin("velocity", np.max(np.abs(V[t, e] - vel)), 1e-6 / dt): vp.fail("reference:velocity", where(e, t) + "%s: velocity %s, expected %s" % (kind, V[t, e], vel)); return
    vp.nontrivial(any(len(contacts(a)) > 1 for a in acts))
    vp.sample(lambda: " ".join("".join(str(int(x)) for x in a)[-30:] for a in acts))


for n in range(1, 12 if T else 10):
    for m in range(2**n):
        if not vp.nextcase("pattern"): continue
        with vp.guard():
            bits = lambda k: [bool((k % 2**n) >> (n - 1 - i) & 1) for i in range(n)]
            acts = [bits(m), bits(m * 5 + 3), bits(~m), bits(m * 3 + n)][:4 if n < 10 else 2]
            judge(acts, (.05, .1, .125, .004)[(m + m // 4) % 4], (.1, .03, 0., .15)[m % 4], m, m % 5 > 1)
# pairs of contacts anywhere in a plan of several hundred steps
for n in (60, 300) + ((700, 1500) if T else (700,)):
    for L in (1, 2, 3, 5, 12):
        for at in (.1, .5, .8, .95):
            for tail in (0, 1, 3):
                if not vp.nextcase("late"): continue
                with vp.guard():
                    k = int(at * n); act = [True] * n
                    for t in range(k, min(n, k + L)): act[t] = False
                    for t in range(n - tail, n): act[t] = False
                    if 3 * k + 8 < n or True:
                        for t in range(k // 2, k // 2 + L): act[t] = False
                    judge([act], .05, .1, n + L + k, True)


# ---- posture between viapoints
for dims in (1, 3, 8):
    for n in (5, 8, 12, 400):
        for dt in (.125, .1, .05):
            grid = [k for k in (1, 2, 3, 5, 7, 8, 11, 12, 250, 399, 400) if k <= n]
            for cnt in (1, 2, 3):
                combos = list(itertools.combinations(grid, cnt))
                for ci, at in enumerate(combos):
                    if n == 400 and (ci % (1 if T else 3) or dims == 8): continue
                    if not vp.nextcase("viapoints"): continue
                    with vp.guard():
                        init = np.array([num(dims, n, j, 1) for j in range(dims)]); end = np.array([num(dims, n, j, 2) for j in range(dims)])
                        via = [np.array([k * dt] + [num(k, j, ci, 3) for j in range(dims)]) for k in at]
                        g = mk.TrajectoryInterpolator(); g.num_time_steps, g.init, g.end = n, init.copy(), end.copy()
                        g.generate_trajectory(cnt, [v.copy() for v in via], dt)
                        knots = [(0., init)] + [(v[0] / dt, v[1:]) for v in via] + ([(float(n), end)] if abs(at[-1] - n) > 0 else [])
                        ok = True
                        for t in range(n):
                            i = max([k for k in range(len(knots) - 1) if knots[k][0] < t] or [0]); (ta, a), (tb, b) = knots[i], knots[i + 1]
                            want = np.array([swing(ta, tb, a[j], b[j], None, float(t))[0] for j in range(dims)]); got = np.asarray(g.evaluate_trajecory(t)).ravel(); vp.count("points")
                            if got.shape != want.shape or not vp.margin("viapoint", np.max(np.abs(got - want)), 1e-6): ok = False; vp.fail("viapoints:value", "%d viapoints at steps %s of %d: %s at step %d, expected %s" % (cnt, at, n, got, t, want)); break
                        vp.nontrivial(ok); vp.sample("dims %d steps %d dt %g viapoints at %s" % (dims, n, dt, at))
vp.finish()
