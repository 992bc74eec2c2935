"""P19: what Python code writes through the bindings is what the C++ planner holds, and what it reads back is what the
planner holds - for every sequence of accesses up to a depth, on stand-alone objects, on elements of containers and
on the settings; a plan made through Python is the plan the planner reports.
argv: directory of pymomentum, directory of pysolver"""
import itertools, os, re, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path[0:0] = [sys.argv[1], sys.argv[2]]
import numpy as np
import vp, pyplan
import pysolver, pymomentum as pm
vp.init()
rng = lambda k, n: np.array([(0.25 + 1.5 * k + 0.125 * j + ((k * 37 + j * 11) % 7) / 16.) * (-1 if (k * 5 + j * 3) % 4 == 1 else 1) for j in range(n)])


def same(a, b):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    return a.shape == b.shape and bool(np.all(a == b))


# ---- one object: a model maps slots to values; an op writes one slot; every getter reads one slot
class Kind:
    def __init__(self, name, make, init, ops, gets): self.name, self.make, self.init, self.ops, self.gets = name, make, init, ops, gets
    def check(self, o, m, where):
        for g, slot, f in self.gets:
            v = f(o)
            if not same(v, m[slot]): vp.fail(self.name + ":" + g, "%s: %s reads %s, expected %s" % (where, g, np.asarray(v).tolist(), np.asarray(m[slot]).tolist())); return False
        return True


def prop(a): return (lambda o: getattr(o, a)), (lambda o, v: setattr(o, a, v))
def path(*a):
    def get(o):
        for x in a: o = getattr(o, x)
        return o
    def put(o, v):
        for x in a[:-1]: o = getattr(o, x)
        setattr(o, a[-1], v)
    return get, put


def dyn_kind():
    init, ops, gets = {}, [], []
    for a in ("dt", "com", "lmom", "amom", "lmomd", "amomd"):
        g, p = prop(a); ops.append((a, a, p, 1 if a == "dt" else 3)); gets.append((a, a, g))
        init[a] = None if a == "dt" else np.zeros(3)
    for e in range(4):
        for nm, n, names in (("Position", 3, ("eff", "effPosition")), ("Force", 3, ("effForce",)), ("Torque", 3, ("effTorque",)), ("Activation", 0, ("effActivation",)), ("CoP", -1, ("effCoP",)), ("Orientation", -4, ("effOrientation",)), ("Velocity", -1, ("effVelocity",)), ("Acceleration", -1, ("effAcceleration",))):
            s = "%s%d" % (nm, e); init[s] = np.array([0., 0, 0, 1]) if n == -4 else np.zeros(3) if n else np.zeros(1)
            if n >= 0: ops.append((s, s, (lambda o, v, e=e, nm=nm: getattr(o, "setEff" + nm)(e, v)), n))
            for g in names: gets.append((g + "(%d)" % e, s, (lambda o, e=e, g=g: getattr(o, g)(e))))
    gets.append(("effNum", "num", lambda o: o.effNum())); init["num"] = 4
    return Kind("DynamicsState", pm.DynamicsState, init, ops, gets)


def posture_ops(pre, n, init, ops, gets):
    pos, quat, jnt = path(*pre, "base_position"), path(*pre, "base_orientation"), path(*pre, "joint_positions"); g = path(*pre, "generalized_joint_positions")[0]; k = ".".join(pre) + "." if pre else ""
    init[k + "p"] = np.zeros(3); init[k + "q"] = np.array([0., 0, 0, 1]); init[k + "j"] = np.zeros(n)
    ops += [(k + "base_position", k + "p", pos[1], 3), (k + "base_orientation", k + "q", quat[1], 4)] + ([(k + "joint_positions", k + "j", jnt[1], n)] if n else [])
    gets += [(k + "base_position", k + "p", pos[0]), (k + "base_orientation", k + "q", quat[0]), (k + "joint_positions", k + "j", jnt[0])]
    gets += [(k + "generalized[:3]", k + "p", lambda o: g(o)[:3]), (k + "generalized[3:7]", k + "q", lambda o: g(o)[3:7]), (k + "generalized[7:]", k + "j", lambda o: g(o)[7:])]


def motion_ops(pre, n, init, ops, gets, gen, lin, ang, jnt):
    k = ".".join(pre) + "." if pre else ""
    g, l, a, j = (path(*pre, x) for x in (gen, lin, ang, jnt))
    for s, m, (gg, pp), lo in ((k + lin, 3, l, 0), (k + ang, 3, a, 3), (k + jnt, n, j, 6)):
        init[s] = np.zeros(m); gets.append((s, s, gg)); gets.append((k + gen + "[%d:%d]" % (lo, lo + m), s, lambda o, lo=lo, m=m: g[0](o)[lo:lo + m]))
        if m: ops.append((s, s, pp, m))
    ops.append((k + gen, (k + lin, k + ang, k + jnt), g[1], n + 6))


def kin_kinds(n):
    out = []
    i, o, g = {}, [], []; posture_ops((), n, i, o, g); out.append(Kind("RobotPosture", lambda: pm.RobotPosture(n), i, o, g))
    V = ("generalized_joint_velocities", "base_linear_velocity", "base_angular_velocity", "joint_velocities"); A = ("generalized_joint_accelerations", "base_linear_acceleration", "base_angular_acceleration", "joint_accelerations")
    i, o, g = {}, [], []; motion_ops((), n, i, o, g, *V); out.append(Kind("RobotVelocity", lambda: pm.RobotVelocity(n), i, o, g))
    i, o, g = {}, [], []; motion_ops((), n, i, o, g, *A); out.append(Kind("RobotAcceleration", lambda: pm.RobotAcceleration(n), i, o, g))
    i, o, g = {}, [], []
    for a in ("com", "lmom", "amom"):
        x, y = prop(a); i[a] = np.zeros(3); o.append((a, a, y, 3)); g.append((a, a, x))
    i["num"] = n; g.append(("numJoints", "num", lambda s: s.numJoints))
    posture_ops(("robot_posture",), n, i, o, g); motion_ops(("robot_velocity",), n, i, o, g, *V); motion_ops(("robot_acceleration",), n, i, o, g, *A)
    for e in range(4):
        i["eff%d" % e] = np.zeros(3)
        def put(s, v, e=e): s.endeffector_positions[e] = v
        o.append(("endeffector_positions[%d]" % e, "eff%d" % e, put, 3)); g.append(("endeffector_positions[%d]" % e, "eff%d" % e, lambda s, e=e: s.endeffector_positions[e]))
    out.append(Kind("KinematicsState", lambda: pm.KinematicsState(n), i, o, g))
    return out


TYPES = [pm.ContactType.FreeContact, pm.ContactType.FlatContact, pm.ContactType.FullContact]
def cnt_kind():
    i, o, g = {}, [], []
    for a, n in (("start_time", 1), ("end_time", 1), ("position", 3), ("active", 0)):
        x, y = prop(a); i[a] = None; o.append((a, a, y, n)); g.append((a, a, x))
    def typ(s, v): s.contactType = TYPES[int(v)]
    i["type"] = None; o.append(("contactType", "type", typ, -3)); g.append(("contactType", "type", lambda s: TYPES.index(s.contactType)))
    i["rot"] = None; g.append(("placement[:3,3]", "position", lambda s: s.placement[:3, 3])); g.append(("placement[3]", "last", lambda s: s.placement[3])); i["last"] = [0, 0, 0, 1]
    o.append(("placement", ("position", "rot"), lambda s, v: setattr(s, "placement", v), -4)); g.append(("placement rotation", "rot", lambda s: np.round(s.placement[:3, :3], 9)))
    return Kind("ContactState", pm.ContactState, i, o, g)


ROT = [np.array(p, dtype=float) for p in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, -1], [0, 1, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[.6, -.8, 0], [.8, .6, 0], [0, 0, 1]])]
def value(op, k):
    n = op[3]
    if n == 0: return bool(k % 2)
    if n == -3: return k % 3
    if n == -4:
        m = np.eye(4); m[:3, :3] = ROT[k % len(ROT)]; m[:3, 3] = rng(k + 3, 3); return m
    if op[0].endswith("base_orientation"): return rng(k, 4) * (np.array([1, 1, 1, -1.]) * np.sign(rng(k, 4)[3]) if k % 2 else -1)
    return rng(k, n) if n > 1 else float(rng(k, 1)[0]) if n == 1 and not isinstance(op[1], tuple) and op[1] in ("dt", "start_time", "end_time") else rng(k, n)


def update(m, op, v):
    if op[3] == -4: m["position"], m["rot"] = v[:3, 3].copy(), np.round(v[:3, :3], 9)
    elif isinstance(op[1], tuple):
        p = 0
        for s in op[1]: w = len(m[s]); m[s] = np.array(v[p:p + w]); p += w
    else: m[op[1]] = np.array(v, dtype=float)


def fresh(kind, o):
    """model of a new object; slots without a documented initial value start from what is read"""
    m = dict(kind.init)
    for g, slot, f in kind.gets:
        if m[slot] is None: m[slot] = np.array(f(o), dtype=float)
    return m


def explore(kind, depth, holders, values, sec):
    n = len(kind.ops)
    steps = [(i, k) for i in range(n) for k in values]
    for holder in holders:
        for seq in itertools.product(steps, repeat=depth):
            if not vp.nextcase(sec): continue
            with vp.guard():
                keep, get = holder(kind); slots = len(get)
                ms = [fresh(kind, g()) for g in get]
                ok = all(kind.check(g(), m, "new object") for g, m in zip(get, ms))
                for d, (i, k) in enumerate(seq):
                    if not ok: break
                    op, who = kind.ops[i], (d + i) % slots; v = value(op, k + 2 * d)
                    op[2](get[who](), v.copy() if isinstance(v, np.ndarray) else v); update(ms[who], op, v)
                    vp.count("transitions"); ok = all(kind.check(g(), m, "after " + ", ".join("%s=#%d" % (kind.ops[a][0], b) for a, b in seq[:d + 1]) + " (object %d)" % j) for j, (g, m) in enumerate(zip(get, ms)))
                    vp.count("states")
                if ok: repr(get[0]()); vp.nontrivial()
                vp.sample(lambda: "%s %s: %s" % (kind.name, holder.__name__, [kind.ops[a][0] for a, b in seq]))


def alone(kind):
    o, p = kind.make(), kind.make(); return (o, p), [lambda: o, lambda: p]
def vector(V):
    def held(kind):
        v = V(); v.append(kind.make()); v.append(kind.make()); return v, [lambda: v[0], lambda: v[1]]
    held.__name__ = "in a " + V.__name__; return held
def dynseq(kind):
    s = pm.DynamicsSequence(); s.resize(3); return s, [lambda: s.dynamics_states[0], lambda: s.dynamics_states[2], lambda: s.dynamics_states[1]]
def kinseq(n):
    def held(kind): s = pm.KinematicsSequence(); s.resize(2, n); return s, [lambda: s.kinematics_states[1], lambda: s.kinematics_states[0]]
    held.__name__ = "KinematicsSequence"; return held
def cntseq(kind):
    s = pm.ContactSequence()
    for e in (0, 3): s.contact_states(e).append(kind.make())
    return s, [lambda: s.contact_states(0)[0], lambda: s.contact_states(3)[0]]
def through(n, a):
    """the part of a kinematics state held in a sequence"""
    def held(kind): s = pm.KinematicsSequence(); s.resize(2, n); return s, [lambda: getattr(s.kinematics_states[0], a), lambda: getattr(s.kinematics_states[1], a)]
    held.__name__ = "KinematicsState." + a; return held


T = vp.thorough()
D = dyn_kind()
explore(D, 2, [alone, vector(pm.DynStateVector), dynseq], (1, 2), "dynamics state")
if T: explore(D, 3, [dynseq], (1,), "dynamics state")
for n in ((0, 1, 8, 12) if not T else (0, 1, 2, 8, 12)):
    ks = kin_kinds(n)
    for kind, a in zip(ks[:3], ("robot_posture", "robot_velocity", "robot_acceleration")): explore(kind, 3 if T else 2, [alone, through(n, a)], (1, 2) if T else (1,), "joints")
    explore(ks[3], 3 if T and n == 8 else 2, [alone, vector(pm.KinStateVector), kinseq(n)] if not T or n != 8 else [kinseq(n)], (1,), "kinematics state")
explore(cnt_kind(), 3 if T else 2, [alone, vector(pm.CntStateVector), cntseq], (1, 2, 3), "contact state")

# ---- containers: assignment copies, a sequence keeps its own elements, resize and clean
MAKE = {"dyn": (pm.DynamicsSequence, "dynamics_states", pm.DynStateVector, pm.DynamicsState, lambda s, n: s.resize(n)),
        "kin": (pm.KinematicsSequence, "kinematics_states", pm.KinStateVector, lambda: pm.KinematicsState(8), lambda s, n: s.resize(n, 8))}
COPS = [("resize", n) for n in (0, 1, 3)] + [("clean", 0)] + [("assign", n) for n in (0, 2)] + [("write", i) for i in (0, 2)] + [("append", 0), ("pop", 0), ("source", 0)]
for name, (Seq, attr, Vec, New, resize) in MAKE.items():
    for seq in itertools.product(range(len(COPS)), repeat=4 if T else 3):
        if not vp.nextcase("containers"): continue
        with vp.guard():
            s, m, src, c = Seq(), [], None, 0
            for q in seq:
                what, n = COPS[q]; c += 1; x = rng(c, 3)
                if what == "resize": resize(s, n); m = [np.zeros(3)] * n
                elif what == "clean": s.clean(); m = []
                elif what == "assign":
                    src = Vec()
                    for i in range(n): e = New(); e.com = x + i; src.append(e); e.com = x - 9
                    setattr(s, attr, src); m = [x + i for i in range(n)]
                elif what == "write":
                    if n >= len(m): continue
                    getattr(s, attr)[n].com = x; m = m[:n] + [x] + m[n + 1:]
                elif what == "append": e = New(); e.com = x; getattr(s, attr).append(e); e.com = x + 1; m = m + [x]
                elif what == "pop":
                    if not m: continue
                    e = getattr(s, attr).pop()
                    if not same(e.com, m[-1]): vp.fail("container:pop", "popped %s, expected %s" % (e.com, m[-1]))
                    m = m[:-1]
                elif what == "source":
                    if src is None or not len(src): continue
                    src[0].com = x
                got = [np.array(e.com) for e in getattr(s, attr)]; vp.count("states"); vp.count("transitions")
                if s.size() != len(m) or len(got) != len(m) or not all(same(a, b) for a, b in zip(got, m)):
                    vp.fail("container:" + name, "%s: size %d holds %s, expected %s" % ([COPS[a] for a in seq], s.size(), got, m)); break
            else: vp.nontrivial(len(m) > 0)
            repr(s)

# ---- names of enumerations
if vp.nextcase("names"):
    with vp.guard():
        for n, i in (("right_foot", 0), ("left_foot", 1), ("right_hand", 2), ("left_hand", 3)):
            e = getattr(pm.EffId, n)
            if int(e) != i or e.value() != i: vp.fail("names:EffId", "%s is %s / %s, expected %d" % (n, int(e), e.value(), i))
        for E, names in ((pm.ContactType, ("FreeContact", "FlatContact", "FullContact")), (pm.Heuristic, ("TrustRegion", "SoftConstraint", "TimeOptimization"))):
            for i, n in enumerate(names):
                if int(getattr(E, n)) != i: vp.fail("names:" + E.__name__, "%s is %d" % (n, int(getattr(E, n))))
        vp.nontrivial()

# ---- settings: the table of p20 tells which key of the file a parameter stands for
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p20_settings.cpp")).read()
CLS = {"I": ("Int", "PlannerIntParam"), "B": ("Bool", "PlannerBoolParam"), "D": ("Double", "PlannerDoubleParam"), "W": ("Vector", "PlannerVectorParam"), "c": ("CVector", "PlannerCVectorParam"), "a": ("IntVector", "PlannerIntVectorParam")}
TAB = [(t, g, p, k, int(n or 0)) for t, g, p, k, n in re.findall(r'\b([IBDW])\((ALL|KIN|TIME|FIRST|SECOND), (\w+), "(\w+)"(?:, (-?\d+))?\)', src)]
TAB += [("c", g, p.split("_", 1)[1], k, int(n)) for g, p, k, n in re.findall(r"\{(ALL|FIRST|SECOND), 'c', (\w+), \"(\w+)\", (-?\d+)\}", src)]
TAB += [("a", g, p.split("_", 1)[1], k, -2) for g, p, k in re.findall(r"\{(KIN), 'a', (\w+), \"(\w+)\", -2\}", src)]
assert len(TAB) > 90
def bound(t, p):
    E = getattr(pm, CLS[t][1], None); return getattr(E, CLS[t][1] + "_" + p, None) if E else None
USED = set()
pydir = os.path.join(os.environ.get("VP_REPO", "/repo"), "momentumopt/python")
for r, _, fs in os.walk(pydir):
    for f in fs:
        if f.endswith(".py"): USED |= set(re.findall(r"\bPlanner\w+Param_\w+", open(os.path.join(r, f), errors="replace").read()))
B = [x for x in TAB if bound(x[0], x[2]) is not None]
if vp.nextcase("settings"):
    vp.count("parameters_bound", len(B)); vp.nontrivial()
    for u in sorted(USED):
        E = getattr(pm, u.split("_")[0], None)
        if E is None or not hasattr(E, u): vp.fail("settings:missing", "the Python package uses %s, which the interface does not offer" % u)
SCR = tempfile.mkdtemp(prefix="p19.", dir="."); FILE = os.path.join(SCR, "c.yaml")
DOFS = 8
def read(g, o): return g == "ALL" or (o["heur"] == 2 if g == "TIME" else o["kin"] and (g == "KIN" or (g == "FIRST") != o["second"]))
def val(i, x, o):
    t, g, p, k, n = x; s = o["seed"]
    if t == "I": return {"num_dofs": DOFS, "num_com_viapoints": 2}.get(k, (1 if "joint" in k else 3) if "viapoints" in k else 4 + i + 50 * s)
    if t == "B": return {"load_kinematics": o["kin"], "use_second_order_inv_kin": o["second"]}.get(k, bool((i + s) % 2))
    if t == "D": return {"time_step": .125, "time_horizon": .75}.get(k, 0.5 + i + s / 32.)
    ln = DOFS if n == -1 else DOFS + 1 if n == -3 else n
    if t == "W": return [-3. + i + .25 * j + .5 * s for j in range(ln)]
    if t == "a": return [(3 * j + i + s) % DOFS for j in range(5)]
    c = 2 if g == "ALL" else 1 if n == -3 else 3
    return [[-3. + i + .25 * j + .0625 * b + s for j in range(ln)] for b in range(c)]
def load(o):
    over = {}; want = {}
    for i, x in enumerate(TAB):
        v = val(i, x, o); want[x[2]] = v; k = x[3]
        over[k] = ("LinearCone" if v else "SocCone") if k == "friction_cone" else dict([("none", 0)] + [("via%d" % b, w) for b, w in enumerate(v)]) if x[0] == "c" else v
    over["heuristic"] = ("TrustRegion", "SoftConstraint", "TimeOptimization")[o["heur"]]
    cfg = pyplan.config(dofs=DOFS); cfg["planner_variables"].update(over); pyplan.write(FILE, cfg)
    s = pm.PlannerSetting(); s.initialize(FILE); return s, want
def flat(x, v): return [np.asarray(a, dtype=float).ravel().tolist() for a in v] if x[0] == "c" else np.asarray(v, dtype=float).ravel().tolist()
def snapshot(s, xs): return {x[2]: flat(x, s.get(bound(x[0], x[2]))) for x in xs}
def changed(x, v):
    if x[0] == "I": return v + 7
    if x[0] == "B": return not v
    if x[0] == "D": return v + .0625
    if x[0] == "W": return np.array(v) + .0625
    if x[0] == "a": return np.array([(w + 1) % DOFS for w in v], dtype=np.int32)
    return [np.array(w) - .5 for w in v] + [np.arange(5.)]
for o in [dict(heur=h, kin=k, second=s, seed=z) for h in range(3) for k in (False, True) for s in (False, True) for z in ((0, 1) if T else (0,)) if not (s and not k)]:
    xs = [x for x in B if read(x[1], o)]
    if vp.nextcase("settings"):
        with vp.guard():
            s, want = load(o); got = snapshot(s, xs); vp.nontrivial(); vp.count("states")
            if o["kin"] and list(s.get(pm.PlannerIntVectorParam.PlannerIntVectorParam_ExtendedActiveDofs)) != list(range(6)) + [6 + d for d in want["ActiveDofs"]]: vp.fail("settings:ExtendedActiveDofs", "reads %s with the active dofs %s" % (s.get(pm.PlannerIntVectorParam.PlannerIntVectorParam_ExtendedActiveDofs), want["ActiveDofs"]))
            for x in xs:
                if got[x[2]] != flat(x, want[x[2]]): vp.fail("settings:" + x[2], "%s reads %s; the file says %s: %s" % (x[2], got[x[2]], x[3], want[x[2]]))
    for x in xs:
        for y in (xs if T and x is not None and o["heur"] == 2 and o["kin"] and o["seed"] == 0 else [None]):
            if not vp.nextcase("set"): continue
            with vp.guard("set:" + x[2]):
                s, want = load(o); m = snapshot(s, xs)
                for z in ([x] if y is None else [x, y]):
                    v = changed(z, s.get(bound(z[0], z[2])) if z[0] in "IBD" else want[z[2]]); s.set(bound(z[0], z[2]), v); m[z[2]] = flat(z, v); vp.count("transitions")
                got = snapshot(s, xs); vp.nontrivial(); vp.count("states")
                for z in xs:
                    if got[z[2]] != m[z[2]]: vp.fail("set:" + x[2], "after writing %s, %s reads %s, expected %s" % (x[2], z[2], got[z[2]], m[z[2]])); break

# ---- a plan made through Python
def numbers(text, key):
    m = re.search(r"^  %s:(.*?)(?=^  \w+:|^\w+:|\Z)" % key, text, re.S | re.M)
    return np.array([float(t) for t in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", m.group(1))]) if m else None
PLANS = [[[(0, .5, (.2, .1, 0))], [(0, .2, (.2, -.1, 0)), (.3, 2, (.3, -.1, 0))], [(0, 2, (-.2, .1, 0))], [(0, 2, (-.2, -.1, 0))]],
         [[(0, 2, (.2, .1, 0))], [], [(0, 2, (-.2, .1, 0))], [(.2, 2, (-.2, -.1, 0))]],
         [[(0, .2, (.2, .1, 0)), (.3, 2, (.25, .1, 0))], [(0, .2, (.2, -.1, 0)), (.3, 2, (.25, -.1, 0))], [(0, 2, (-.2, .1, 0), (1, 0, 0, 0), 2)], [(0, .3, (-.2, -.1, 0))]]]
for plan in range(len(PLANS)):
    for heur in ("TrustRegion", "SoftConstraint", "TimeOptimization"):
        for mv in ((0, 0, 0), (.05, 0, 0)):
            if not vp.nextcase("plan"): continue
            with vp.guard():
                QW = [(.8, .6, 0, 0), (.6, 0, 0, .8), (0, .6, .8, 0), (.5, .5, -.5, .5)]
                cfg = pyplan.config(PLANS[plan], ini={"eef_pose": {"eef_" + n: [1., .2 * (-1) ** (i // 2), .1 * (-1) ** i, 0.] + list(QW[i]) for i, n in enumerate(pyplan.EFF)}}, dofs=8, heuristic=heur, store_data=True, com_displacement=list(mv), w_com=[1., 1, 1], w_lmom=[.1] * 3, w_amom=[.1] * 3)
                pyplan.write(FILE, cfg); out = os.path.abspath(os.path.join(SCR, "out.yaml"))
                s = pm.PlannerSetting(); s.initialize(FILE); s.set(pm.PlannerStringParam.PlannerStringParam_SaveDynamicsFile, out)
                if s.get(pm.PlannerStringParam.PlannerStringParam_SaveDynamicsFile) != out: vp.fail("plan:file", "the file name to write to is not kept"); continue
                ini = pm.DynamicsState(); ini.fillInitialRobotState(FILE)
                if not same(ini.com, [0, 0, .3]) or any(not same(ini.effPosition(e), [.2 * (-1) ** (e // 2), .1 * (-1) ** e, 0]) for e in range(4)): vp.fail("plan:initial", "the initial state read is %s" % ini)
                if any(not same(ini.effOrientation(e), QW[e][1:] + QW[e][:1]) for e in range(4)): vp.fail("plan:orientation", "the initial orientations read are %s, the file says (w first) %s" % ([np.asarray(ini.effOrientation(e)).tolist() for e in range(4)], QW))
                t = pm.TerrainDescription(); t.loadFromFile(FILE); c = pm.ContactPlanFromFile(); c.initialize(s); c.optimize(ini, t)
                for e in range(4):
                    cs = c.contactSequence().contact_states(e)
                    if len(cs) != len(PLANS[plan][e]) or any(cc.start_time != p[0] or cc.end_time != p[1] or not same(cc.position, p[2]) or int(cc.contactType) != (p[4] if len(p) > 4 else 1) for cc, p in zip(cs, PLANS[plan][e])): vp.fail("plan:contacts", "effector %d: %s" % (e, [str(x) for x in cs]))
                k = pm.KinematicsSequence(); N = s.get(pm.PlannerIntParam.PlannerIntParam_NumTimesteps); k.resize(N, 8)
                for i, x in enumerate(k.kinematics_states): x.com = rng(i, 3); x.lmom = rng(i + 20, 3); x.robot_velocity.generalized_joint_velocities = rng(i, 14)
                opt = pm.DynamicsOptimizer(); opt.initialize(s); code = opt.optimize(ini, c, k)
                if "Optimal" not in str(code): continue
                q = opt.dynamicsSequence(); st = q.dynamics_states; txt = open(out).read(); vp.nontrivial(); vp.count("plans")
                col = lambda key, r: numbers(txt, key).reshape(r, -1)
                for key, a in (("com_motion", "com"), ("lin_mom", "lmom"), ("ang_mom", "amom")):
                    w = col(key, 3); g = np.array([getattr(x, a) for x in st]).T
                    if w.shape != g.shape or not np.allclose(w, g, rtol=1e-4, atol=1e-6): vp.fail("plan:" + a, "the states read %s, the saved plan holds %s" % (g.tolist(), w.tolist()))
                for key, a in (("com_motion_ref", "com"), ("lin_mom_ref", "lmom")):
                    w = col(key, 3); g = np.array([getattr(x, a) for x in k.kinematics_states]).T
                    if not np.allclose(w, g, rtol=1e-4, atol=1e-6): vp.fail("plan:reference", "the reference written through Python is %s, the planner saw %s" % (g.tolist(), w.tolist()))
                for e in range(4):
                    w = col("eef_frc_%d" % e, 3); g = np.array([x.effForce(e) if x.effActivation(e) else np.zeros(3) for x in st]).T
                    if not np.allclose(w, g, rtol=1e-4, atol=1e-6): vp.fail("plan:force", "effector %d: the states read %s, the saved plan holds %s" % (e, g.tolist(), w.tolist()))
                tv = numbers(txt, "time_vec"); g = np.cumsum([x.dt for x in st])
                if not np.allclose(tv, g, rtol=1e-4): vp.fail("plan:time", "%s %s" % (tv, g))
                if q.size() != N or len(st) != N: vp.fail("plan:size", "%d states for %d steps" % (len(st), N))
                vp.sample(lambda: "plan %d %s: %s" % (plan, heur, code))
import shutil; shutil.rmtree(SCR, ignore_errors=True)
vp.finish()
