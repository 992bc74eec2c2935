"""planted changes to contact plans (P14) and swing motions (P15)"""
from mkseed import *
import seeds_plan as S
P14 = open("/verif/harness/p14_contacts.cpp").read()
P14 = P14[:P14.index("#ifndef P14_NO_MAIN")]
VPH = '''#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <cmath>
#include <cstdio>
namespace vp { static int bad = 0; inline void fail(const std::string& k, const std::string& m) { std::printf("%s: %s\\n", k.c_str(), m.c_str()); bad = 1; } }
'''
SH = S.SH
def cnt(id, prop, needs, breaks, edits, body):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils"%id, exist_ok=True)
    mk(id, prop, needs, breaks, edits, dict({"demo.cpp":'#include "contacts.hpp"\n'+body,"contacts.hpp":"#pragma once\n"+P14,"vp.hpp":VPH}, **S.STUB), SH)
I="momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp"; C="momentumopt/src/momentumopt/cntopt/ContactState.cpp"
cnt("p14-reload","P14","a plan is read into a sequence that already holds contacts of an effector which the new plan does not use",
 "contacts of an effector without contacts in the new plan stay in the sequence",
 [(C,"        this->endeffectorContacts(eff_id).clear();\n","        if (!contacts.empty()) this->endeffectorContacts(eff_id).clear();\n")],
 '''int main() { unsigned s = 3; Plan a, b; a.c[0].push_back(contact(s, 0, 1, 0)); a.c[1].push_back(contact(s, 0, 1, 1)); b.c[0].push_back(contact(s, 1, 2, 0));
  ContactSequence q; write(yaml(a, "contact_plan", true) + yaml(b, "other_plan", true)); q.loadFromFile(file()); check_loaded(a, q, "first", ""); q.loadFromFile(file(), "other_plan"); check_loaded(b, q, "second", ""); unlink(file().c_str()); return vp::bad; }
''')
cnt("p14-foreign-id","P14","a plan with contacts of more than one effector",
 "the steps of a plan carry contact numbers counted over all effectors, so they refer to other contacts of their effector",
 [(I,".endeffectorContactId(eff_id) = cnt_id;",".endeffectorContactId(eff_id) = contact_sequence_.endeffectorContacts(eff_id)[cnt_id].optimizationId();")],
 '''int main() { unsigned s = 3; Plan p; p.c[0].push_back(contact(s, 0, 0.5, 0)); p.c[1].push_back(contact(s, 0, 0.5, 1)); p.c[1].push_back(contact(s, 0.75, 1.25, 2)); Loaded l; l.load(p, 0.25, 4, false); DynamicsSequence q; q.resize(4); l.plan.fillDynamicsSequence(l.ini, q); check_steps(p, q, 4, 0.25, "steps", ""); return vp::bad; }
''')
cnt("p14-last-instant","P14","a contact that ends exactly at the time of a step",
 "effectors stay in contact one step too long when a contact ends exactly at a step",
 [(I,"current_time< contact_sequence_","current_time<=contact_sequence_")],
 '''int main() { unsigned s = 3; Plan p; p.c[2].push_back(contact(s, 0.1, 0.5, 0)); p.c[2].push_back(contact(s, 0.9, 1.1, 0)); Loaded l; l.load(p, 0.25, 5, false); DynamicsSequence q; q.resize(5); l.plan.fillDynamicsSequence(l.ini, q); check_steps(p, q, 5, 0.25, "steps", ""); return vp::bad; }
''')
cnt("p15-single-step","P15","an effector that is in the air for one step only",
 "the orientation of an effector in the air for a single step is not a number",
 [(I,"double(end_id+1.0-start_id)","double(end_id-start_id)")],
 '''int main() { unsigned s = 3; Plan p; p.c[1].push_back(contact(s, 0, 0.6, 0)); p.c[1].push_back(contact(s, 0.9, 2, 1)); Loaded l; l.load(p, 0.25, 5, true); DynamicsSequence q; q.resize(5); for (int t = 0; t < 5; t++) q.dynamicsState(t).time() = 0.25;
  l.plan.fillDynamicsSequence(l.ini, q); l.plan.updateEndeffectorTrajectories(l.ini, q);
  for (int t = 0; t < 5; t++) { std::cout << t << " active " << q.dynamicsState(t).endeffectorActivation(1) << " orientation " << q.dynamicsState(t).endeffectorOrientation(1).coeffs().transpose() << std::endl; if (!q.dynamicsState(t).endeffectorOrientation(1).coeffs().allFinite()) return 1; } return 0; }
''')
cnt("p15-uniform-time","P15","steps of different durations, as in a plan with optimised timing",
 "swing motions are timed with the duration of the first step instead of the durations of the steps",
 [(I,"mapped_time += dyn_sequence.dynamicsState(time_id).time();","mapped_time += dyn_sequence.dynamicsState(0).time();")],
 '''int main() { unsigned s = 3; Plan p; p.c[1].push_back(contact(s, 0, 0.3, 0)); p.c[1].push_back(contact(s, 1.2, 2, 1)); Loaded l; l.load(p, 0.25, 6, true); DynamicsSequence q; q.resize(6); double at = 0, ts[7] = {0}; for (int t = 0; t < 6; t++) { q.dynamicsState(t).time() = 0.125 * (1 + t % 3); ts[t + 1] = at += q.dynamicsState(t).time(); }
  l.plan.fillDynamicsSequence(l.ini, q); l.plan.updateEndeffectorTrajectories(l.ini, q); // in the air from step 1 to step 3
  for (int t = 0; t < 6; t++) std::cout << t << " active " << q.dynamicsState(t).endeffectorActivation(1) << " time " << ts[t + 1] << " position " << q.dynamicsState(t).endeffectorPosition(1).transpose() << " velocity " << q.dynamicsState(t).endeffectorVelocity(1).transpose() << std::endl;
  double D = ts[4] - ts[2], u = (ts[3] - ts[2]) / D; V3 a = p.c[1][0].p, b = p.c[1][1].p, x = a + (b - a) * u * u * u * (10 - 15 * u + 6 * u * u); std::cout << "expected at step 2 " << x.transpose() << std::endl; return !((q.dynamicsState(2).endeffectorPosition(1) - x).norm() < 1e-6); }
''')
