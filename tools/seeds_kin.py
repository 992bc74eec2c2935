"""planted changes to the kinematics optimizer (P24)"""
from mkseed import *
import seeds_plan as S
P14 = open("/verif/harness/p14_contacts.cpp").read(); P14 = P14[:P14.index("#ifndef P14_NO_MAIN")]
P24 = open("/verif/harness/p24_kinopt.cpp").read(); P24 = P24[:P24.index("int main(int argc")].replace('#define P14_NO_MAIN\n#include "p14_contacts.cpp"', '#include "contacts.hpp"')
VPH = '''#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <cstring>
#include <cmath>
#include <cstdio>
namespace vp { static int bad = 0; inline void fail(const std::string& k, const std::string& m) { std::printf("%s: %s\\n", k.c_str(), m.c_str()); bad = 1; }
inline void count(const std::string&) {} inline void nontrivial() {} inline std::string case_id() { return ""; } }
'''
SH = S.SH.replace("kinopt/KinematicsState.cpp", "kinopt/*.cpp")
def kin(id, needs, breaks, edits, body):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils"%id, exist_ok=True)
    mk(id, "P24", needs, breaks, edits, dict({"demo.cpp":'#include "kin.hpp"\n'+body,"kin.hpp":"#pragma once\n"+P24,"contacts.hpp":"#pragma once\n"+P14,"vp.hpp":VPH}, **S.STUB), SH)
K="momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp"
RUN='limits(k, %s); Data d = data(k, 5, %s, %s); %s Run r; r.init(k); r.go(k, d, true); motion("motion", k, d, r.opt.kinematicsSequence(), start(k)); consistent("motion", k, d, r.opt.kinematicsSequence(), start(k)); return vp::bad; }\n'
kin("p24-first-rate","a motion that starts with momentum, and a penalty on the momentum rate",
 "the momentum rate of the first step is counted from rest instead of from the initial momentum",
 [(K,"(vars_[lmom_.id(axis_id,time_id)] - ini_state.linearMomentum()[axis_id])/dyn","(vars_[lmom_.id(axis_id,time_id)])/dyn")],
 'int main() { Case k = weighted(3, 2, 3, 4, 5); k.T = 3; '+RUN%("100","0","false","d.ini.linearMomentum() = V3(3, -2, 1);"))
kin("p24-first-step-length","steps of different durations",
 "joint accelerations are computed with the duration of the step before",
 [(K,"(vars_[total_qd_.id(dof_id,time_id)] - vars_[total_qd_.id(dof_id,time_id-1)])/dyn_sequence.dynamicsState(time_id).time()","(vars_[total_qd_.id(dof_id,time_id)] - vars_[total_qd_.id(dof_id,time_id-1)])/dyn_sequence.dynamicsState(time_id-1).time()")],
 'int main() { Case k = weighted(8, 2, 3, 4, 5); k.T = 3; '+RUN%("100","2","true",""))
kin("p24-limit-of-other-joint","active joints that are not the first ones of the robot, with limits that differ and are reached",
 "the upper joint limits are those of other joints when not all joints are active",
 [(K,'"<", this->getSetting().get(PlannerVectorParam_MaxJointAngles)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[dof_id]]','"<", this->getSetting().get(PlannerVectorParam_MaxJointAngles)[dof_id]')],
 'int main() { Case k = weighted(0, 3, 6, 4, 5); k.T = 2; for (int s = 0; s < 4; s++) { Case c = k; limits(c, 0.05); Data d = data(c, 5 + s, 0, false); Run r; r.init(c); r.go(c, d, true); motion("motion", c, d, r.opt.kinematicsSequence(), start(c)); } return vp::bad; }\n')
kin("p24-penetration-equality","posture stage with penetration constraints that are far from active",
 "bodies that stay clear of each other are pulled towards the contact distance by the posture stage",
 [(K,'''model_.addLinConstr(lin_cons_, "<", vars_[slack_vars_.id(con_id,0)]);''','''model_.addLinConstr(lin_cons_, "=", vars_[slack_vars_.id(con_id,0)]);''')],
 'int main() { Case k = weighted(5, 2, 3, 4, 5); k.T = 1; k.conv = 2; k.traj = 0; k.cons = 2; k.store = true; limits(k, 100); Data d = data(k, 5, 15, false); d.r.g0.setConstant(3); Run r; r.init(k); r.go(k, d, true); V x0 = start(k), x1 = x0; if (!results("posture", k, d, r.opt.kinematicsSequence(), x0)) return 1; std::vector<V> st; if (!stage(k, d, x1, &st)) return 0; double o = (x0 - x1).norm() + (vec(r.opt.kinematicsSequence().kinematicsState(0)) - st[0]).norm(); std::printf("off %g\\n", o); return !(o < 1e-2); }\n')
