import sys
from mkseed import *
V="/verif/"
HPP=open(V+"lib/dynplan.hpp").read().replace("#include <vp.hpp>\n","#include <fstream>\n#include <sstream>\n#include <unistd.h>\n#include <functional>\n#include <iostream>\n#include <cstdio>\n#include <cmath>\n")
STUB={"stub/yaml_utils/"+n:open(V+"stubs/yaml_utils/"+n).read() for n in ("yaml_cpp_fwd.hpp","yaml_eigen.hpp")}
SH = HEAD + '''F="-std=c++17 -O1 -w -I$D -I$D/stub -I$R/solver/include -I$R/momentumopt/include -I/usr/include/eigen3"
mkdir "$W/o"
{ echo "$D/demo.cpp"; ls "$R"/solver/src/solver/interface/*.cpp "$R"/solver/src/solver/optimizer/*.cpp "$R"/momentumopt/src/momentumopt/{cntopt,setting,utilities}/*.cpp \\
  "$R"/momentumopt/src/momentumopt/kinopt/KinematicsState.cpp "$R"/momentumopt/src/momentumopt/dynopt/Dynamics{Optimizer,State}.cpp | grep -v -e Lbfgs; } |
  xargs -P 8 -I{} sh -c 'g++ '"$F"' -DCFG_SRC_PATH=\\"'"$R"'/momentumopt/config/\\" -c "$1" -o "'"$W"'/o/$(basename "$1").o"' _ {}
g++ "$W"/o/*.o -o "$W/demo" -lyaml-cpp
cd "$W"; timeout 100 ./demo > out.txt; cat out.txt | tail -5
'''
PRE='''#include "dynplan.hpp"
using namespace dp;
static bool solved(ExitCode c) { return c == ExitCode::Optimal || c == ExitCode::OptimalInacc; }
'''
def plan(id, prop, needs, breaks, edits, body):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils"%id, exist_ok=True)
    mk(id, prop, needs, breaks, edits, dict({"demo.cpp":PRE+body,"dynplan.hpp":HPP}, **STUB), SH)
DO="momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp"
if __name__=="__main__":
    src=open("/repo/"+DO).read()
    line=[l for l in src.split("\n") if l.startswith("\t\t    lz = ") and "contactLocation(time_id, eff_id, 2)" in l]; assert len(line)==1
    plan("p13-tilted-cop","P13","a contact surface tilted about its x axis and an effector at its reach limit",
     "the center of pressure along a tilted surface counts with the wrong component in the height of the lever arm, so planned legs are longer than allowed",
     [(DO,line[0]+"\n",line[0].replace("*ry(2)","*ry(1)")+"\n")],
     '''int main() {
  Case k; k.T = 3; k.nact = 1; k.dt = 0.125; k.heuristic = "TrustRegion"; k.mu = 0.8; k.itrefs = 2; Eigen::Quaterniond q(Eigen::AngleAxisd(0.4, V3(1, 0, 0)));
  k.ep[0] = V3(0, 0, 0); k.c[0] = {{0, 3 * k.dt, V3(0, 0, 0), q, 1}}; k.com = V3(0, 0, 1); k.cop[0] = Eigen::Vector4d(-0.01, 0.01, 0.1, 0.2);
  k.len = Eigen::Vector4d::Constant(0.98); k.w_com = V3(10, 10, 10); k.disp = V3(0, 0, 0.3); k.w_lmom = V3(0.1, 0.1, 0.1); k.w_fl = V3(0.1, 0.1, 0.1);
  Session s; s.load(k); s.run(k); std::printf("exit code %d\\n", (int)s.code); if (!solved(s.code)) return 0;
  int bad = 0; for (int t = 0; t < 3; t++) { auto& x = s.opt.dynamicsSequence().dynamicsState(t); V3 c = x.endeffectorCoP(0); double l = (V3(q * V3(c.x(), c.y(), 0)) - x.centerOfMass()).norm(); std::printf("length %g\\n", l); if (l > 0.981) bad = 1; }
  return bad;
}
''')
    plan("p13-liftoff-rate","P13","a schedule in which an effector leaves the ground within the horizon and force rates are penalised",
     "the drop of the force at lift-off is not penalised, so plans keep loading effectors until they leave the ground",
     [(DO,"LinExpr next_force = 0.0;","LinExpr next_force = current_force;")],
     '''int main() {
  Case k; k.T = 2; k.nact = 2; k.dt = 0.125; k.heuristic = "SoftConstraint"; k.mu = 0.8; Eigen::Quaterniond q = Eigen::Quaterniond::Identity();
  k.c[0] = {{0, 2 * k.dt, k.ep[0], q, 2}}; k.c[1] = {{0, 3 * k.dt, k.ep[1], q, 2}};   // the right foot leaves the ground after the first step
  k.w_fl = V3(0.01, 0.01, 0.01); k.w_dfl = V3(1, 1, 1); k.w_com = V3(1e-4, 1e-4, 1e-4); k.frc[0] = V3(0, 0, 1); k.frc[1] = V3(0, 0, 1);
  Session s; s.load(k); s.run(k); if (!solved(s.code)) return 2;
  auto& x = s.opt.dynamicsSequence(); double f = x.dynamicsState(0).endeffectorForce(0).z(); std::printf("force before lift-off %g\\n", f);
  return !(std::fabs(f - 0.5) < 0.05);
}
''')
    plan("p13-cone-tilt","P13","a linear friction cone at a tilted contact",
     "the friction pyramid is rotated the wrong way, so forces outside the friction cone of tilted contacts are planned",
     [(DO,"= cone_matrix_*eff_rotation.transpose();","= cone_matrix_*eff_rotation;")],
     '''int main() {
  Case k; k.T = 2; k.nact = 1; k.dt = 0.125; k.mu = 0.3; k.w_com = V3(10, 10, 10); k.w_fl = V3(0.1, 0.1, 0.1); Eigen::Quaterniond q(Eigen::AngleAxisd(0.5, V3(1, 0, 0)));
  k.c[0] = {{0, 3 * k.dt, k.ep[0], q, 1}}; k.disp = V3(0.1, 0.3, 0);
  Session s; s.load(k); s.run(k); std::printf("exit code %d\\n", (int)s.code); if (!solved(s.code)) return 0; int bad = 0;
  for (int t = 0; t < 2; t++) { V3 L = q.conjugate() * s.opt.dynamicsSequence().dynamicsState(t).endeffectorForce(0); std::printf("force in the contact frame %g %g %g\\n", L.x(), L.y(), L.z()); if (std::fabs(L.x()) + std::fabs(L.y()) > std::sqrt(2.) * k.mu * L.z() + 1e-3) bad = 1; }
  return bad;
}
''')
