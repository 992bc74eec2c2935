"""planted changes to what the Python interface reads and writes (P19)"""
from mkseed import *
import seeds_plan as S
SH = HEAD + '''g++ -std=c++17 -O1 -w -I"$D/stub" -I"$R/solver/include" -I"$R/momentumopt/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R/momentumopt/src/momentumopt/cntopt/ContactState.cpp" "$R/momentumopt/src/momentumopt/kinopt/KinematicsState.cpp" -o "$W/demo" -lyaml-cpp
timeout 60 "$W/demo"
'''
PRE = '''#include <momentumopt/kinopt/KinematicsState.hpp>
#include <momentumopt/cntopt/ContactState.hpp>
#include <iostream>
using namespace momentumopt;
int main() {
'''
def st(id, needs, breaks, edits, body):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils" % id, exist_ok=True)
    mk(id, "P19", needs, breaks, edits, dict({"demo.cpp": PRE + body + "}\n"}, **S.STUB), SH)
H = "momentumopt/include/momentumopt/kinopt/KinematicsState.hpp"; C = "momentumopt/src/momentumopt/cntopt/ContactState.cpp"
st("p19-quaternion-sign", "a base orientation with a negative scalar part", "orientations are stored with another sign than they were written, so plans jump between the two",
   [(H, "base_orientation_ = Eigen::Quaternion<double>(base_orientation[3], base_orientation[0], base_orientation[1], base_orientation[2]); }",
     "base_orientation_ = Eigen::Quaternion<double>(std::abs(base_orientation[3]), base_orientation[0], base_orientation[1], base_orientation[2]); }")],
   '''RobotPosture p(3); Eigen::Vector4d q(.5, -.5, .5, -.5); p.pyBaseOrientation(q); std::cout << p.pyBaseOrientation().transpose() << std::endl; return p.pyBaseOrientation() != q;
''')
st("p19-crossed-acceleration", "an angular acceleration of the base that is written after a linear one", "writing the angular acceleration of the base overwrites the linear one",
   [(H, "void baseAngularAcceleration(const Eigen::Ref<const Eigen::Vector3d> base_angular_acceleration) { generalized_joint_accelerations_.segment<3>(3)", "void baseAngularAcceleration(const Eigen::Ref<const Eigen::Vector3d> base_angular_acceleration) { generalized_joint_accelerations_.segment<3>(0)")],
   '''RobotAcceleration a(2); a.baseLinearAcceleration(Eigen::Vector3d(1, 2, 3)); a.baseAngularAcceleration(Eigen::Vector3d(4, 5, 6)); Eigen::VectorXd w(8); w << 1, 2, 3, 4, 5, 6, 0, 0; std::cout << a.generalizedJointAccelerations().transpose() << std::endl; return a.generalizedJointAccelerations() != w;
''')
st("p19-placement-order", "a placement with a rotation and a position", "a contact reads a placement whose position is rotated",
   [(C, "    placement.translate(position_);\n    placement.rotate(orientation_);", "    placement.rotate(orientation_);\n    placement.translate(position_);")],
   '''ContactState c; Eigen::Matrix4d m = Eigen::Matrix4d::Identity(); m.topLeftCorner<3, 3>() << 0, -1, 0, 1, 0, 0, 0, 0, 1; m.topRightCorner<3, 1>() << 1, 2, 3; c.contactPlacement(m); std::cout << c.contactPlacement() << std::endl; return !c.contactPlacement().isApprox(m, 1e-9);
''')
