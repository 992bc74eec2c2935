// A robot interface written in C++ next to the repository's bindings, and the C++ side of settings and gains,
// to compare with what Python code sees (used by p29_interfaces.py).
#include <pybind11/eigen.h>
#include <pybind11/stl.h>
#include <pybind11/pybind11.h>
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
namespace py = pybind11; using namespace momentumopt; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M; typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q;

// center of mass, end-effectors and momenta linear in base position, rotation vector and joints; rotations forty times shrunk
struct Native : KinematicsInterface {
  V c0, g0; M C, A, dA, G, e0; std::vector<M> E; std::vector<std::pair<std::string, double>> calls; std::vector<V> shown, seen;
  Native(V c, M e, M C_, py::list E_, M A_, M dA_, M G_, V g) : c0(c), g0(g), C(C_), A(A_), dA(dA_), G(G_), e0(e) { for (auto x : E_) E.push_back(x.cast<M>()); }
  static Q rot(const V3& u) { V3 v = u / 40; double a = v.norm(); return a < 1e-12 ? Q(1, v.x() / 2, v.y() / 2, v.z() / 2).normalized() : Q(Eigen::AngleAxisd(a, v / a)); }
  static V3 log(const Q& q) { double s = q.vec().norm(), w = q.w(); V3 u = q.vec(); if (w < 0) { w = -w; u = -u; } return s < 1e-12 ? V3(80 * u) : V3(80 * std::atan2(s, w) / s * u); }
  static V vec(const RobotPosture& p) { V x(6 + p.jointPositions().size()); x << p.basePosition(), log(p.baseOrientation()), p.jointPositions(); return x; }
  void call(const char* n, double dt, const KinematicsState& s) { calls.push_back({n, dt}); V x = vec(s.robotPosture()), y(x.size() + s.robotVelocity().generalizedJointVelocities().size() + 9); y << x, s.robotVelocity().generalizedJointVelocities(), s.centerOfMass(), s.linearMomentum(), s.angularMomentum(); seen.push_back(y); }
  void initialize(PlannerSetting& p) override { calls.push_back({"initialize", p.get(PlannerDoubleParam_TimeStep)}); }
  V3 logarithmicMap(const Eigen::Vector4d w) override { return log(Q(w[0], w[1], w[2], w[3])); }
  KinematicsState integratePosture(KinematicsState& a, double dt) override { call("integrate", dt, a); KinematicsState s = a; V x = vec(s.robotPosture()) + dt * s.robotVelocity().generalizedJointVelocities(); s.robotPosture().basePosition() = x.head(3); s.robotPosture().baseOrientation() = rot(x.segment(3, 3)); s.robotPosture().jointPositions() = x.tail(x.size() - 6); return s; }
  KinematicsState differentiatePostures(KinematicsState& a, KinematicsState& b, double dt) override { call("differentiate", dt, a); call("differentiate", dt, b); KinematicsState s = b; s.robotVelocity().generalizedJointVelocities() = (vec(b.robotPosture()) - vec(a.robotPosture())) / dt; return s; }
  void displayPosture(const KinematicsState& s, double dt) override { calls.push_back({"display", dt}); shown.push_back(vec(s.robotPosture())); }
  KinematicsState updateJacobiansAndState(KinematicsState& a, double dt) override {
    call("update", dt, a); double f = 1 + .1 * (calls.size() % 3); KinematicsState s = a; V x = vec(s.robotPosture()), m = A * s.robotVelocity().generalizedJointVelocities(); s.centerOfMass() = c0 + C * x; s.linearMomentum() = m.head(3); s.angularMomentum() = m.tail(3);
    for (int e = 0; e < 4; e++) { s.endeffectorPosition(e) = e0.row(e).transpose() + E[e].topRows(3) * x; endeffectorJacobian(e) = f * E[e]; }
    centerOfMassJacobian() = f * C; centroidalMomentumMatrix() = f * A; centroidalMomentumMatrixVariation() = f * dA; constraintsMatrix(M(dt * G)); constraintsVector(V(g0 - G * x)); return s; }
};

static py::list gains(const std::string& lqr, const std::string& plan, const DynamicsState& ini, const DynamicsSequence& q, int from, int to) {
  solverlqr::SolverLqrSetting l; l.initialize(lqr); PlannerSetting p; p.initialize(plan); DynamicsFeedbackWrapper w; w.initialize(l, p); w.optimize(ini, q); py::list r; for (int t = from; t < to; t++) r.append(py::cast(w.forceGain(t))); return r; }
#define ROW(n) r.append(py::make_tuple(#n, int(solverlqr::n), py::cast(l.get(solverlqr::n))));
#define NUM(n) r.append(py::make_tuple(#n, int(solverlqr::n), py::none()));
static py::list settings(const std::string& f) { using namespace solverlqr; solverlqr::SolverLqrSetting s; s.initialize(f); const solverlqr::SolverLqrSetting& l = s; py::list r;
  ROW(SolverLqrIntParam_Verbosity) ROW(SolverLqrIntParam_TimeDimension) ROW(SolverLqrIntParam_StateDimension) ROW(SolverLqrIntParam_PrecisionDigits) ROW(SolverLqrIntParam_LqrMaxIterations) ROW(SolverLqrIntParam_ControlDimension) ROW(SolverLqrIntParam_BackPassRegulatizationType)
  ROW(SolverLqrBoolParam_StoreData) ROW(SolverLqrBoolParam_HasControlLimits) ROW(SolverLqrBoolParam_UseRungeKuttaIntegration)
  ROW(SolverLqrDoubleParam_TimeStep) ROW(SolverLqrDoubleParam_TimeHorizon) ROW(SolverLqrDoubleParam_CostChangeTolerance) ROW(SolverLqrDoubleParam_DivergenceLimitCheck) ROW(SolverLqrDoubleParam_ControlGradientTolerance)
  ROW(SolverLqrDoubleParam_BackPassMinRegularization) ROW(SolverLqrDoubleParam_BackPassMaxRegularization) ROW(SolverLqrDoubleParam_MinExpectedCostImprovement) ROW(SolverLqrDoubleParam_BackPassInitialRegularization)
  ROW(SolverLqrDoubleParam_BackPassMultRegularizationIncr) ROW(SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr)
  ROW(SolverLqrStringParam_ConfigFile) ROW(SolverLqrStringParam_SaveLqrFile) ROW(SolverLqrVectorParam_InitialState) ROW(SolverLqrVectorParam_LineSearchCoeffs)
  NUM(SolverLqrIntParam_CurrentIteration) NUM(SolverLqrIntParam_BackpassDivergeIteration) NUM(SolverLqrDoubleParam_Cost) NUM(SolverLqrDoubleParam_CostChange) NUM(SolverLqrDoubleParam_ExpectedCost) NUM(SolverLqrDoubleParam_ControlGradient) NUM(SolverLqrDoubleParam_CurrentRegularization) NUM(SolverLqrYamlParam_UserParameters)
  if (l.get(SolverLqrBoolParam_HasControlLimits)) { ROW(SolverLqrVectorParam_MinControlLimits) ROW(SolverLqrVectorParam_MaxControlLimits) } return r; }

PYBIND11_MODULE(vpnative, m) {
  py::module::import("pymomentum");
  py::class_<Native, KinematicsInterface>(m, "Native").def(py::init<V, M, M, py::list, M, M, M, V>()).def_readonly("calls", &Native::calls).def_readonly("shown", &Native::shown).def_readonly("seen", &Native::seen);
  m.def("gains", &gains); m.def("lqr_settings", &settings);
}
