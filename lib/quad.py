"""A small four-legged robot (eight or twelve joints) with the frames the kinematics code asks for, in place of the robot
description packages that are not installed."""
import sys, types
import numpy as np, pinocchio as pin


def model(haa=False, effs=("FR", "FL", "HR", "HL")):
    m = pin.Model(); I = pin.SE3.Identity()
    root = m.addJoint(0, pin.JointModelFreeFlyer(), I, "root_joint")
    m.appendBodyToJoint(root, pin.Inertia(1.2, np.array([.01, -.005, .004]), np.diag([.006, .012, .015])), I)
    m.addFrame(pin.Frame("base_link", root, 0, I, pin.FrameType.BODY))
    for k, eff in enumerate(effs):
        x, y = (.19, -.19)[k // 2], (-.15, .15)[k % 2]
        at = pin.SE3(np.eye(3), np.array([x, y, 0.])); parent = root
        if haa:
            parent = m.addJoint(root, pin.JointModelRX(), at, eff + "_HAA"); m.appendBodyToJoint(parent, pin.Inertia(.1, np.array([0., .01, 0]), np.diag([1e-4, 1e-4, 1e-4])), I); at = pin.SE3(np.eye(3), np.array([0., .02 * (-1) ** (k + 1), 0.]))
        hip = m.addJoint(parent, pin.JointModelRY(), at, eff + "_HFE"); m.appendBodyToJoint(hip, pin.Inertia(.15, np.array([0., 0, -.08]), np.diag([4e-4, 4e-4, 1e-4])), I)
        m.addFrame(pin.Frame(eff + "_HFE", hip, 0, I, pin.FrameType.OP_FRAME))
        knee = m.addJoint(hip, pin.JointModelRY(), pin.SE3(np.eye(3), np.array([0., 0, -.16])), eff + "_KFE"); m.appendBodyToJoint(knee, pin.Inertia(.05, np.array([0., 0, -.06]), np.diag([1e-4, 1e-4, 2e-5])), I)
        m.addFrame(pin.Frame(eff + "_KFE", knee, 0, I, pin.FrameType.OP_FRAME))
        m.addFrame(pin.Frame(eff + "_ANKLE", knee, 0, pin.SE3(np.eye(3), np.array([0., 0, -.16])), pin.FrameType.OP_FRAME))
    return m


class Quadruped:
    haa = False
    def __init__(self):
        self.model = model(self.haa); self.robot = pin.RobotWrapper(self.model); self.data = self.robot.data; self.effs = ["FR", "FL", "HR", "HL"]
        self.joints_list = (["HAA"] if self.haa else []) + ["HFE", "KFE", "ANKLE"]; self.num_ctrl_joints = self.model.nv - 6
class Quadruped12(Quadruped): haa = True


def stub():
    """the module that needs the robot description packages, replaced"""
    w = types.ModuleType("momentumopt.robots.blmc_robot_wrapper"); w.QuadrupedWrapper = Quadruped; w.Quadruped12Wrapper = Quadruped12; w.BipedWrapper = Quadruped
    sys.modules[w.__name__] = w
    for name in ("pybullet", "rospkg"): sys.modules.setdefault(name, types.ModuleType(name))
    sim = types.ModuleType("momentumopt.robots.simulator"); sim.Simulator = object; sys.modules[sim.__name__] = sim


def mass(m): return sum(i.mass for i in m.inertias)
def stance(m, h=.24):
    """a posture with bent knees (HFE=a, KFE=-2a keeps the foot below the hip)"""
    a = np.arccos(h / .32); q = pin.neutral(m); q[2] = h; n = (m.nv - 6) // 4
    for k in range(4): q[7 + n * k + n - 2: 7 + n * k + n] = [a, -2 * a]
    return q
