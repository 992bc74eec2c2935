"""planted changes to the planner settings (P20)"""
from mkseed import *
import seeds_plan as S
SH = HEAD + '''g++ -std=c++17 -O1 -w -I"$D" -I"$D/stub" -I"$R/solver/include" -I"$R/momentumopt/include" -I/usr/include/eigen3 -DCFG_SRC_PATH=\\"$R/momentumopt/config/\\" "$D/demo.cpp" "$R/momentumopt/src/momentumopt/setting/PlannerSetting.cpp" -o "$W/demo" -lyaml-cpp
cp "$R/momentumopt/config/cfg_solo8_trot.yaml" "$W/trot.yaml"; cd "$W"; timeout 60 ./demo
'''
PRE = '''#include <momentumopt/setting/PlannerSetting.hpp>
#include <fstream>
#include <iostream>
using namespace momentumopt;
static void save(YAML::Node y, const char* f) { std::ofstream o(f); o << y; }
static YAML::Node trot() { return YAML::LoadFile("trot.yaml"); }
static std::vector<double> vec(int n, double v) { return std::vector<double>(n, v); }
int main() { YAML::Node y = trot(); YAML::Node p = y["planner_variables"];
'''
def st(id, needs, breaks, edits, body):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils" % id, exist_ok=True)
    mk(id, "P20", needs, breaks, edits, dict({"demo.cpp": PRE + body + "}\n"}, **S.STUB), SH)
P = "momentumopt/src/momentumopt/setting/PlannerSetting.cpp"
st("p20-old-viapoints", "a second file with base viapoints of the second order inverse kinematics, read into the same settings", "base viapoints of an earlier file stay in the list",
   [(P, "          base_viapoints_second_.clear();", "          base_viapoints_.clear();")],
   '''p["use_second_order_inv_kin"] = true; p["num_base_viapoints_second"] = 1; p["base_viapoints_second"]["via0"] = vec(4, 1.); save(y, "a.yaml");
p["num_base_viapoints_second"] = 2; p["base_viapoints_second"]["via0"] = vec(4, 2.); p["base_viapoints_second"]["via1"] = vec(4, 3.); save(y, "b.yaml");
PlannerSetting s; s.initialize("a.yaml"); s.initialize("b.yaml"); auto v = s.get(PlannerCVectorParam_BaseViapoints_Second); std::cout << v.size() << std::endl; return !(v.size() == 2 && v[0].size() == 4 && v[0][1] == 2 && v[1][3] == 3);
''')
st("p20-dof-order", "active degrees of freedom that leave one of the robot's out", "the extended degrees of freedom are numbered consecutively",
   [(P, "6+active_dofs_[dof_id]", "6+std::min<int>(dof_id, active_dofs_[dof_id])")],
   '''p["active_dofs"] = std::vector<int>{0, 1, 3, 4, 6, 7}; save(y, "a.yaml"); PlannerSetting s; s.initialize("a.yaml"); auto v = s.get(PlannerIntVectorParam_ExtendedActiveDofs); std::cout << v.transpose() << std::endl;
int w[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13}; for (int i = 0; i < 12; i++) if (v[i] != w[i]) return 1; return 0;
''')
st("p20-first-order-gain", "the first order inverse kinematics with different gains of the two kinds", "the gain of the center of mass is read for the second order kind only",
   [(P, 'YAML::ReadParameter(planner_vars, "p_com_tracking", p_com_tracking_);', 'YAML::ReadParameter(planner_vars, "p_com_tracking", p_com_tracking_second_);')],
   '''p["use_second_order_inv_kin"] = false; p["p_com_tracking"] = 7.5; save(y, "a.yaml"); PlannerSetting s; s.initialize("a.yaml"); std::cout << s.get(PlannerDoubleParam_PGainComTracking) << std::endl; return s.get(PlannerDoubleParam_PGainComTracking) != 7.5;
''')
