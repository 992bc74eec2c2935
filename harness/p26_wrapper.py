"""P26: the robot wrapper. Whatever was handed out before (functions for Jacobians, momentum, placements), every quantity read is
that of the configuration and velocity set last, after any sequence of updates and readings."""
import itertools, os, sys, types, io, contextlib
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.environ.get("VP_REPO", "/repo"), "momentumopt/python")); sys.dont_write_bytecode = True
import numpy as np, pinocchio as pin
import vp, quad
MODELS = {"Solo8Config": quad.model(False), "Solo12Config": quad.model(True), "BoltConfig": quad.model(True, ("FL", "FR"))}
for m in MODELS.values(): m.addFrame(pin.Frame("camera", m.njoints - 1, 0, pin.SE3(pin.exp3(np.array([.5, -.8, .3])), np.array([.02, .01, -.07])), pin.FrameType.OP_FRAME))
for mod in ("robot_properties_solo", "robot_properties_bolt"):
    p = sys.modules[mod] = types.ModuleType(mod); c = sys.modules[mod + ".config"] = types.ModuleType(mod + ".config"); p.config = c
    for n, m in MODELS.items(): setattr(c, n, type(n, (), {"buildRobotWrapper": staticmethod(lambda *a, m=m, **k: pin.RobotWrapper(m.copy() if hasattr(m, "copy") else pin.Model(m), pin.GeometryModel(), pin.GeometryModel()))}))
import momentumopt.robots.blmc_robot_wrapper as bw
vp.init(); T = vp.thorough()
ROBOTS = [("QuadrupedWrapper", "Solo8Config", ["FR", "FL", "HR", "HL"], 2), ("Quadruped12Wrapper", "Solo12Config", ["FR", "FL", "HR", "HL"], 3), ("BipedWrapper", "BoltConfig", ["FL", "FR"], 3)]
def rnd(*k):
    x = 2166136261
    for a in k: x = ((x ^ (hash(a) if isinstance(a, int) else sum(map(ord, a)))) * 16777619) % (1 << 32)
    while True:
        x = (x * 1664525 + 1013904223) % (1 << 32); yield (x >> 9) / (1 << 23) * 2 - 1
def vec(n, *k): g = rnd(*k); [next(g) for _ in range(3)]; return np.array([next(g) for _ in range(n)])
def config(m, i):
    if i == 0: return pin.neutral(m)
    return pin.integrate(m, pin.neutral(m), vec(m.nv, i, 7) * np.concatenate(([.4] * 3, [1.2] * 3, [.9] * (m.nv - 6))))
class Truth:
    """everything from a model and data of our own"""
    def __init__(s, m): s.m = m; s.d = m.createData(); s.q = None; s.v = np.zeros(m.nv)
    def at(s, q): pin.framesForwardKinematics(s.m, s.d, q)
    def place(s, f, q=None): s.at(s.q if q is None else q); return s.d.oMf[s.m.getFrameId(f)].copy()
    def jac(s, f, q=None):
        q = s.q if q is None else q; d = s.m.createData(); J = pin.computeFrameJacobian(s.m, d, q, s.m.getFrameId(f), pin.ReferenceFrame.LOCAL); R = s.place(f, q).rotation
        return np.vstack((R @ J[:3], R @ J[3:]))
    def com(s, q=None): return pin.centerOfMass(s.m, s.m.createData(), s.q if q is None else q)
    def jcom(s, q=None): d = s.m.createData(); return pin.jacobianCenterOfMass(s.m, d, s.q if q is None else q).copy()
    def Ag(s): d = s.m.createData(); return pin.ccrba(s.m, d, s.q, s.v).copy()
    def dAg(s): d = s.m.createData(); pin.dccrba(s.m, d, s.q, s.v); return d.dAg.copy()
SEL = {"TRANSLATION": slice(0, 3), "ROTATION": slice(3, 6), None: slice(0, 6)}
def frames(t): return ["base_link", t.m.frames[-1].name, [f.name for f in t.m.frames if f.name.endswith("_HFE") and f.type == pin.FrameType.OP_FRAME][1]]
def readings(w, t, goal):
    """(name, function of the wrapper, what it should return now)"""
    L = []
    for f in frames(t):
        for dof in SEL: L.append(("jacobian %s %s" % (f, dof), w.get_jacobian(f, dof), lambda f=f, dof=dof: t.jac(f)[SEL[dof]]))
        tr = w.get_transformation(f, "TRANSLATION"); full = w.get_transformation(f)
        L.append(("translation " + f, tr, lambda f=f: t.place(f).translation)); L.append(("rotation " + f, w.get_transformation(f, "ROTATION"), lambda f=f: t.place(f).rotation))
        L.append(("placement " + f, lambda full=full: full().homogeneous, lambda f=f: t.place(f).homogeneous))
        gv = w.get_desired_velocity(goal.translation, tr, "TRANSLATION"); L.append(("velocity towards a point " + f, lambda gv=gv: gv(.05), lambda f=f: (goal.translation - t.place(f).translation) / .05))
        gp = w.get_desired_velocity(goal, full); L.append(("velocity towards a placement " + f, lambda gp=gp: gp(.2), lambda f=f: pin.log6(t.place(f).inverse() * goal).vector / .2))
    L.append(("jacobian COM", w.get_jacobian("COM"), t.jcom)); L.append(("jacobian COM TRANSLATION", w.get_jacobian("COM", "TRANSLATION"), t.jcom)); L.append(("COM", w.get_transformation("COM"), t.com))
    L.append(("momentum matrix", w.get_centroidal_momentum(), t.Ag)); L.append(("momentum matrix derivative", w.get_d_centroidal_momentum(), t.dAg))
    return L
def external(w, t):
    L = []
    for f in frames(t):
        for dof in SEL: L.append(("jacobian at %s %s" % (f, dof), w.get_jacobian(f, dof, internal=False), lambda q, f=f, dof=dof: t.jac(f, q)[SEL[dof]]))
    L.append(("jacobian at COM", w.get_jacobian("COM", internal=False), lambda q: t.jcom(q)))
    return L
def same(key, what, got, want, tol=1e-8):
    got, want = np.array(got, dtype=float), np.array(want, dtype=float)
    if got.shape != want.shape and got.size == want.size: got = got.reshape(want.shape)
    if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * (1 + np.abs(want))): vp.fail(key, "%s is %s, not %s" % (what, np.array2string(got, precision=6, threshold=20).replace("\n", ""), np.array2string(want, precision=6, threshold=20).replace("\n", ""))); return False
    return True
def make(name, cfg):
    with contextlib.redirect_stdout(io.StringIO()): w = getattr(bw, name)()
    t = Truth(MODELS[cfg]); return w, t
OPS = ["set1", "set2", "set0", "vel1", "vel2", "move1", "move2"]
def apply(w, t, op):
    k = int(op[-1])
    if op[:3] == "set": q = config(t.m, k); w.set_configuration(q.copy()); t.q = q
    elif op[:3] == "vel": v = vec(t.m.nv, k, 3); w.set_velocity(v.copy()); t.v = v
    else: d = .3 * vec(t.m.nv, k, 11); w.update_configuration(d.copy()); t.q = pin.integrate(t.m, t.q, d)
# initial state: the documented crouch of every leg, at rest, on the floor
for name, cfg, effs, n in ROBOTS:
    if vp.nextcase("initial"):
        w, t = make(name, cfg); q = pin.neutral(t.m); a = np.deg2rad(60.)
        for k in range(len(effs)): q[7 + n * k + n - 2: 7 + n * k + n] = [-a / 2, a]
        ok = same("initial:posture", name + ": initial posture", w.q, q) and same("initial:velocity", name + ": initial velocity", w.dq, np.zeros(t.m.nv)) and same("initial:mass", name + ": mass", w.mass, sum(i.mass for i in t.m.inertias))
        if list(w.effs) != effs or w.num_ctrl_joints != t.m.nv - 6: vp.fail("initial:names", "%s: %s, %s joints" % (name, w.effs, w.num_ctrl_joints)); ok = False
        t.q = np.array(w.q); t.v = np.array(w.dq)
        for what, f, want in readings(w, t, pin.SE3(pin.exp3(np.array([.2, .3, -.4])), np.array([.5, .2, .1]))):
            w, t2 = make(name, cfg); f = dict((a, b) for a, b, c in readings(w, t, pin.SE3(pin.exp3(np.array([.2, .3, -.4])), np.array([.5, .2, .1]))))[what]
            ok = same("initial:" + what.split()[0], "%s: at the initial posture, %s" % (name, what), f(), want()) and ok
        vp.nontrivial(ok)
# all sequences of updates (after which every quantity is read first of all on a fresh sequence, then all others)
for (name, cfg, effs, n), L in itertools.product(ROBOTS, range(1, (5 if T else 4))):
    for seq in itertools.product(OPS, repeat=L):
        if not vp.nextcase("updates"): continue
        goal = pin.SE3(pin.exp3(np.array([.1, -.3, .2])), np.array([-.3, .4, .6])); w, t = make(name, cfg); t.q = np.array(w.q); t.v = np.array(w.dq); R = readings(w, t, goal); E = external(w, t); ok = True; h = sum(OPS.index(o) * 7 ** i for i, o in enumerate(seq))
        for i, op in enumerate(seq):
            apply(w, t, op); r = R[(h + i * 11) % len(R)]; ok = same("updates:" + r[0].split()[0], "%s: %s after %s" % (name, r[0], " ".join(seq[:i + 1])), r[1](), r[2]()) and ok
        ok = same("updates:q", "%s: configuration after %s" % (name, " ".join(seq)), w.q, t.q) and ok
        for j in range(len(R)):
            r = R[(h // 3 + j) % len(R)]
            if not same("updates:" + r[0].split()[0], "%s: %s after %s" % (name, r[0], " ".join(seq)), r[1](), r[2]()): ok = False; break
        for j in range(2):
            r = E[(h + 5 * j) % len(E)]; q = config(t.m, 3 + j); ok = same("updates:at", "%s: %s after %s" % (name, r[0], " ".join(seq)), r[1](q.copy()), r[2](q)) and ok
            r = R[(h + 13 * j) % len(R)]; ok = same("updates:after", "%s: %s after %s and an evaluation elsewhere" % (name, r[0], " ".join(seq)), r[1](), r[2]()) and ok
        a, b = config(t.m, 1 + h % 3), config(t.m, 2 + h % 2); ok = same("updates:difference", name + ": difference of configurations", w.get_difference(a, b), pin.difference(t.m, a, b)) and ok
        vp.nontrivial(ok); vp.sample("%s %s" % (name, " ".join(seq)))
# one quantity alone, read before and after each of two (three) updates: nothing else refreshes what it depends on
for (name, cfg, effs, n), seq in itertools.product(ROBOTS, itertools.product(OPS, repeat=3 if T else 2)):
    if not vp.nextcase("alone"): continue
    goal = pin.SE3(pin.exp3(np.array([.4, .3, -.2])), np.array([.3, -.4, .5])); w, t = make(name, cfg); q0, v0 = np.array(w.q), np.array(w.dq); N = len(readings(w, t, goal)); ok = True
    for k in range(N):
        w, t = make(name, cfg); t.q = q0; t.v = v0; r = readings(w, t, goal)[k]; r[1]()
        for i, op in enumerate(seq):
            apply(w, t, op)
            if not same("alone:" + r[0].split()[0], "%s: %s, read before and after each of %s" % (name, r[0], " ".join(seq[:i + 1])), r[1](), r[2]()): ok = False; break
    vp.nontrivial(ok)
# names that are not frames are refused, as is the rotation of the com
for name, cfg, effs, n in ROBOTS:
    if vp.nextcase("refused"):
        w, t = make(name, cfg); ok = True
        for f, a in [(w.get_jacobian, (x,)) for x in ("nothing", "universe", "root_joint", "")] + [(w.get_transformation, (x,)) for x in ("nothing", "universe", "root_joint", "")] + [(w.get_jacobian, ("COM", "ROTATION"))]:
            try: f(*a); vp.fail("refused", "%s: %s%s is answered" % (name, f.__name__, a)); ok = False
            except ValueError: pass
        vp.nontrivial(ok)
vp.finish()
