"""planted changes to the robot wrapper (P26)"""
from mkseed import *
PSH = HEAD + '''export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 PYTHONPATH="$R/momentumopt/python:$D"
PY=/opt/vp/venv/bin/python; cd "$W"; timeout 200 "$PY" "$D/demo.py"
'''
PRE = '''import sys, types, numpy as np, pinocchio as pin
def model():
    m = pin.Model(); I = pin.SE3.Identity(); root = m.addJoint(0, pin.JointModelFreeFlyer(), I, "root_joint"); m.appendBodyToJoint(root, pin.Inertia(1.2, np.array([.01, 0, 0]), np.diag([.006, .012, .015])), I); p = root
    for k in range(8): p = m.addJoint(root if k % 2 == 0 else p, pin.JointModelRY(), pin.SE3(np.eye(3), np.array([.1, .1, -.1])), "j%d" % k); m.appendBodyToJoint(p, pin.Inertia(.15, np.array([0., 0, -.08]), np.diag([4e-4, 4e-4, 1e-4])), I)
    m.addFrame(pin.Frame("foot", p, 0, pin.SE3(np.eye(3), np.array([0., 0, -.16])), pin.FrameType.OP_FRAME)); return m
M = model()
for mod, names in (("robot_properties_solo", ("Solo8Config", "Solo12Config")), ("robot_properties_bolt", ("BoltConfig",))):
    p = sys.modules[mod] = types.ModuleType(mod); c = sys.modules[mod + ".config"] = types.ModuleType(mod + ".config")
    for n in names: setattr(c, n, type(n, (), {"buildRobotWrapper": staticmethod(lambda: pin.RobotWrapper(pin.Model(M), pin.GeometryModel(), pin.GeometryModel()))}))
from momentumopt.robots.blmc_robot_wrapper import QuadrupedWrapper
w = QuadrupedWrapper(); q = pin.integrate(M, pin.neutral(M), np.linspace(-.5, .7, M.nv)); v = np.linspace(.3, -.8, M.nv); d = M.createData()
def close(a, b): assert np.abs(np.asarray(a) - np.asarray(b)).max() < 1e-8, (a, b)
'''
W = "momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py"
def wr(id, needs, breaks, edits, body): mk(id, "P26", needs, breaks, edits, {"demo.py": PRE + body}, PSH)
wr("p26-com-left-over", "the center of mass read after the configuration changed, with nothing else computed in between", "the center of mass handed out is the one computed last, not that of the configuration",
   [(W, "            return self.robot.com(self.q)\n", "            return self.data.com[0] if self.data.com[0].any() else self.robot.com(self.q)\n")],
   'f = w.get_transformation("COM"); f(); w.set_configuration(q); close(f(), pin.centerOfMass(M, d, q))\n')
wr("p26-goal-in-world", "a goal with another orientation, for a frame that is rotated itself", "velocities towards a placement are given in the wrong frame",
   [(W, "pinocchio.log(transformation_func().inverse() * goal)", "pinocchio.log(goal * transformation_func().inverse())")],
   'w.set_configuration(q); w.get_jacobian("foot")(); pin.framesForwardKinematics(M, d, q); g = pin.SE3(pin.exp3(np.array([.3, .2, -.4])), np.array([.1, .5, .2])); close(w.get_desired_velocity(g, w.get_transformation("foot"))(.1), pin.log6(d.oMf[M.getFrameId("foot")].inverse() * g).vector / .1)\n')
wr("p26-selection-shared", "two Jacobians with different selections of the same frame obtained before either is evaluated", "a rotation Jacobian obtained after a translation Jacobian changes what the earlier one returns",
   [(W, "            range_ = range(3)\n", "            range_ = self.range_ = range(3)\n"), (W, "            range_ = range(3, 6)\n", "            range_ = self.range_ = range(3, 6)\n"), (W, "            range_ = range(6)\n", "            range_ = self.range_ = range(6)\n"),
    (W, "                def eval_jac_internal():\n                    return self.get_world_oriented_frame_jacobian(index)[range_, :]", "                def eval_jac_internal():\n                    return self.get_world_oriented_frame_jacobian(index)[self.range_, :]")],
   '''w.set_configuration(q); a = w.get_jacobian("foot", "TRANSLATION"); b = w.get_jacobian("foot", "ROTATION"); i = M.getFrameId("foot")
J = pin.computeFrameJacobian(M, d, q, i, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED); close(a(), J[:3]); close(b(), J[3:])
''')
