"""planted changes to states, motions and control sequences (P30)"""
from mkseed import *
import seeds_plan as S
SH = HEAD + '''F="-std=c++17 -O1 -w -include iomanip -I$D/stub -I$R/solver/include -I$R/momentumopt/include -I$R/solver_lqr/include -I/usr/include/eigen3"
mkdir "$W/o"
{ echo "$D/demo.cpp"; ls "$R"/momentumopt/src/momentumopt/{cntopt,setting,utilities}/*.cpp "$R"/momentumopt/src/momentumopt/dynopt/DynamicsState.cpp "$R"/momentumopt/src/momentumopt/kinopt/KinematicsState.cpp "$R"/solver_lqr/src/solver_lqr/{OcpDescription,SolverLqrSetting}.cpp; } |
  xargs -P 8 -I{} sh -c 'g++ '"$F"' -DCFG_PATH=\\"'"$R"'/solver_lqr/config/\\" -DCFG_SRC_PATH=\\"'"$R"'/momentumopt/config/\\" -c "$1" -o "'"$W"'/o/$(basename "$1").o"' _ {}
g++ "$W"/o/*.o -o "$W/demo" -lyaml-cpp
timeout 100 "$W/demo"
'''
PRE = '''#include <cstdio>
#include <momentumopt/dynopt/DynamicsState.hpp>
#include <momentumopt/kinopt/KinematicsState.hpp>
#include <solver_lqr/OcpDescription.hpp>
using namespace momentumopt; using namespace solverlqr;
'''
def val(id, needs, breaks, edits, body):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils" % id, exist_ok=True)
    mk(id, "P30", needs, breaks, edits, dict({"demo.cpp": PRE + body}, **S.STUB), SH)
val("p30-stale-motion", "a sequence of motions that is resized when it already holds states", "resizing a sequence of dynamics states keeps the states it had instead of giving new ones",
    [("momentumopt/src/momentumopt/dynopt/DynamicsState.cpp", "    dynamics_sequence_.clear();\n\tfor (int time_id=0; time_id<num_timesteps; time_id++)\n\t\tdynamics_sequence_.push_back(DynamicsState());", "    dynamics_sequence_.resize(num_timesteps);")],
    'int main() { DynamicsSequence q; q.resize(2); q.dynamicsState(1).centerOfMass() = Eigen::Vector3d(1, 2, 3); q.dynamicsState(1).endeffectorActivation(2) = true; q.resize(3); std::printf("%g %d\\n", q.dynamicsState(1).centerOfMass().norm(), int(q.dynamicsState(1).endeffectorActivation(2))); return q.size() != 3 || q.dynamicsState(1).centerOfMass().norm() != 0 || q.dynamicsState(1).endeffectorActivation(2); }\n')
val("p30-other-robot", "a sequence of kinematics states resized to the same length for a robot with another number of joints, or already written", "a sequence of kinematics states that already has the requested length is left as it is, with the joints of the former robot",
    [("momentumopt/src/momentumopt/kinopt/KinematicsState.cpp", "    kinematics_sequence_.clear();\n", "    if (this->size() == num_timesteps) return;\n    kinematics_sequence_.clear();\n")],
    'int main() { KinematicsSequence q; q.resize(2, 8); q.resize(2, 12); std::printf("%d\\n", q.kinematicsState(0).numJoints()); return q.kinematicsState(0).numJoints() != 12; }\n')
val("p30-sum-of-gains", "two control sequences with gains that are added", "a sum of controls keeps the gains of the first",
    [("solver_lqr/src/solver_lqr/OcpDescription.cpp", "  {\n    this->feedback() = rhs.feedback();\n    this->feedforward() += rhs.feedforward();", "  {\n    if (this->feedback().size() != rhs.feedback().size()) this->feedback() = rhs.feedback();\n    this->feedforward() += rhs.feedforward();")],
    'int main() { ControlSequence a(1, 1, 1), b(1, 1, 1); a.control(0).feedback()(0, 0) = 2; b.control(0).feedback()(0, 0) = 5; ControlSequence c = a + b; std::printf("%g\\n", c.control(0).feedback()(0, 0)); return c.control(0).feedback()(0, 0) != 5; }\n')
val("p30-base-quaternion", "an orientation given as a vector of four numbers", "an orientation of the base given as a vector is mirrored so that its scalar part is positive",
    [("momentumopt/include/momentumopt/kinopt/KinematicsState.hpp", "base_orientation_ = Eigen::Quaternion<double>(base_orientation[3], base_orientation[0], base_orientation[1], base_orientation[2]); }", "base_orientation_ = Eigen::Quaternion<double>(std::abs(base_orientation[3]), base_orientation[0], base_orientation[1], base_orientation[2]); }")],
    'int main() { RobotPosture p(2); p.pyBaseOrientation(Eigen::Vector4d(0.6, 0, 0, -0.8)); std::printf("%g\\n", p.baseOrientation().w()); return p.baseOrientation().w() != -0.8; }\n')
val("p30-lost-torques", "torques given as a list for an end-effector that is not active", "torques given as a list are scaled to the forces' list",
    [("momentumopt/include/momentumopt/dynopt/DynamicsState.hpp", "{ eff_torques_ = eff_torques; }", "{ for (size_t eff_id=0; eff_id<eff_torques.size() && eff_id<eff_torques_.size(); eff_id++) if (eff_activations_[eff_id]) eff_torques_[eff_id] = eff_torques[eff_id]; }")],
    'int main() { DynamicsState s; std::vector<Eigen::Vector3d> t(4, Eigen::Vector3d(1, 2, 3)); s.pyEndeffectorTorques(t); std::printf("%g\\n", s.endeffectorTorque(2).norm()); return s.endeffectorTorque(2) != t[2]; }\n')
