from mkseed import *
SS="solver/src/solver/interface/SolverSetting.cpp"
SH = HEAD + '''g++ -std=c++17 -O1 -w -I"$R/solver/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R"/solver/src/solver/interface/SolverSetting.cpp -o "$W/demo" -lyaml-cpp
timeout 60 "$W/demo" "$W/cfg.yaml"
'''
mk("p11-crossed-setting","P11","a settings file whose reduced and full precision relative gaps differ",
 "the reduced precision relative gap is read from the full precision key, so nearly converged problems are no longer recognised",
 [(SS,'solver_vars["relative_suboptimality_gap_inaccurate"]','solver_vars["relative_suboptimality_gap"]')],
 {"demo.cpp":'''#include <stdexcept>
#include <fstream>
#include <cstdio>
#include <solver/interface/SolverSetting.hpp>
using namespace solver;
int main(int, char** argv) {
  const char* keys[] = {"BnB_max_iterations", "BnB_integer_tolerance", "BnB_absolute_suboptimality_gap", "BnB_relative_suboptimality_gap", "feasibility_tolerance", "absolute_suboptimality_gap",
    "relative_suboptimality_gap", "feasibility_tolerance_inaccurate", "absolute_suboptimality_gap_inaccurate", "relative_suboptimality_gap_inaccurate", "equil_iterations", "dyn_reg_thresh",
    "lin_sys_accuracy", "err_reduction_factor", "num_iter_ref_lin_solve", "static_regularization", "dynamic_regularization", "safeguard", "min_step_length", "max_step_length", "min_centering_step",
    "max_centering_step", "step_length_scaling", "max_iters", "ipsolver_max_iters", "ipsolver_warm_iters", "num_itrefs_trustregion", "trust_region_threshold", "soft_constraint_weight_full", "soft_constraint_weight_reduced"};
  { std::ofstream o(argv[1]); o << "solver_variables:\\n  verbose: false\\n  BnB_verbose: false\\n"; int i = 0; for (auto k : keys) o << "  " << k << ": " << ++i << "\\n"; }
  SolverSetting s; s.initialize(argv[1]);
  double a[] = {s.get(SolverDoubleParam_FeasibilityTol), s.get(SolverDoubleParam_DualityGapAbsTol), s.get(SolverDoubleParam_DualityGapRelTol), s.get(SolverDoubleParam_FeasibilityTolInacc), s.get(SolverDoubleParam_DualityGapAbsTolInacc), s.get(SolverDoubleParam_DualityGapRelTolInacc)};
  int bad = 0; for (int i = 0; i < 6; i++) if (a[i] != 5 + i) { std::printf("%s is %g\\n", keys[4 + i], a[i]); bad = 1; }
  return bad;
}
'''}, SH)
