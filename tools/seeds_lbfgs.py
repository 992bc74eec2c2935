from mkseed import *
LB="solver/src/solver/optimizer/LbfgsSolver.cpp"
SH = HEAD + '''g++ -std=c++17 -O1 -w -I"$R/solver/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R/solver/src/solver/optimizer/LbfgsSolver.cpp" -o "$W/demo"
timeout 60 "$W/demo"
'''
mk("p12-strong-wolfe","P12","the strong Wolfe backtracking search, with a trial step that overshoots the minimum along the direction",
 "the strong Wolfe search accepts points where the slope along the direction is still steep uphill",
 [(LB,"	  if(dg > -param->wolfe * dginit) {\n","	  if(dg > -dginit) {\n")],
 {"demo.cpp":'''#include <iostream>
#include <vector>
#include <cmath>
#include <cstdio>
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver;
static double xs[2], gs[2]; static int bad;
static double ev(void*, const double* x, double* g, const int, const double) {   // Rosenbrock
  double a = x[1] - x[0] * x[0], b = 1 - x[0]; g[0] = -400 * a * x[0] - 2 * b; g[1] = 200 * a; return 100 * a * a + b * b; }
static int pg(void*, const double* x, const double* g, const double, const double, const double, const double, int, int k, int) {
  double d0 = 0, d1 = 0; for (int i = 0; i < 2; i++) { d0 += gs[i] * (x[i] - xs[i]); d1 += g[i] * (x[i] - xs[i]); }
  if (std::fabs(d1) > 0.2 * std::fabs(d0) + 1e-9) { std::printf("iteration %d: slope %g after %g\\n", k, d1, d0); bad = 1; }
  for (int i = 0; i < 2; i++) { xs[i] = x[i]; gs[i] = g[i]; } return 0; }
int main() {
  for (double x0 : {-2.0, -1.2, 0.0, 0.5, 3.0}) for (double y0 : {-1.0, 1.0, 2.0}) {
    double x[2] = {x0, y0}, f; lbfgs_parameter_t p; lbfgs_parameter_init(&p); p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE; p.wolfe = 0.2; p.max_iterations = 100;
    for (int i = 0; i < 2; i++) xs[i] = x[i]; ev(0, xs, gs, 2, 0); lbfgs(2, x, &f, ev, pg, 0, &p); }
  return bad;
}
'''}, SH)
