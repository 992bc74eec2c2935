// Every schedule (bounded preemptions / spurious wake-ups) of the two-thread hierarchical solver.
#include <vp.hpp>
#include <sched.hpp>
#include <Eigen/Eigen>
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <solver/rt_optimizer/RtHQPSolver.h>

typedef rt_solver::RtHQPSolver<8, 2, 2> Solver;
typedef std::vector<double> Vals;
static char* buf;
static std::string hist;
static Vals last;
static YAML::Node node;
static long g_runs;

static void put(Vals& v, Solver& s, bool ok) {
  v.push_back(ok); v.push_back(s.nullspaceDimension());
  for (int i = 0; i < s.solution().size(); i++) v.push_back(s.solution()[i]);
}
static bool task(Solver& s, char t, int n) {
  Eigen::MatrixXd E(0, n), A(0, n); Eigen::VectorXd e(0), a(0);
  auto row = [&](Eigen::MatrixXd& M, Eigen::VectorXd& v, double c0, double c1, double k) {
    M.conservativeResize(M.rows() + 1, n); v.conservativeResize(v.size() + 1);
    M(M.rows() - 1, 0) = c0; if (n > 1) M(M.rows() - 1, 1) = c1; v(v.size() - 1) = k; };
  switch (t) {
    case 'a': row(E, e, 1, 2, -2); break;
    case 'b': row(A, a, -1, -1, 1); break;
    case 'c': row(E, e, 1, 0, -3); row(E, e, 0, 1, 1); break;
    case 'd': row(E, e, 1, -1, 0); row(A, a, 1, 0, 1); row(A, a, -1, 0, 1); break;
    default: break;
  }
  return s.solveNextTask(E, e, A, a);
}
static void body(void* p) {
  int fill = (g_runs++ & 1) ? 0xff : 0;
  memset(buf, fill, sizeof(Solver));
  sched::watch(buf, sizeof(Solver));
  last.clear();
  Solver* s = new (buf) Solver(node);
  int n = 2;
  for (char c : hist) {
    if (c == 'I') s->initialize();
    else if (c == 'R') { n = 2; s->reset(2); last.clear(); }
    else if (c == 'r') { n = 1; s->reset(1); last.clear(); }
    else { bool ok = task(*s, c, n); put(last, *s, ok); }
  }
  s->~Solver();
  if (sched::threads_alive() > 0) { sched::schedule(); throw std::string("a worker thread is still alive after the solver is gone"); }
}
static void on_fault(const char* kind, const std::string& d, const std::string& s) {
  vp::fail(std::string("schedule:") + kind, "history " + hist + ": " + kind + ": " + d + "; schedule " + s.substr(0, 400));
  vp::finish(); fflush(nullptr); _Exit(0);
}
static std::string strip(const std::string& h) { std::string o; size_t p = h.find_last_of("Rr"); for (size_t i = p; i < h.size(); i++) if (h[i] != 'I') o += h[i]; return o; }

static void run(const std::string& h, int pre, int spu) {
  if (!vp::next("history")) return;
  static std::map<std::string, Vals> memo;
  std::string suffix = strip(h);
  struct A { Vals ref; bool have; } a; a.have = false;
  if (!memo.count(suffix)) {         // reference: fresh solver, default schedule
    hist = "I" + suffix; g_runs = 0;
    sched::Config c; c.preemptions = 0; c.spurious = 0; c.max_runs = 1;
    sched::explore(c, body, nullptr, on_fault);
    memo[suffix] = last;
  }
  hist = h; g_runs = 0;
  Vals& ref = memo[suffix];
  sched::Config c; c.preemptions = pre; c.spurious = spu;
  struct Arg { Vals* ref; } arg{&ref};
  auto b = [](void* p) {
    vp::tick();
    try { body(nullptr); } catch (const std::string& m) { on_fault("thread leak", m, sched::schedule()); }
    Vals& r = *((Arg*)p)->ref;
    bool same = r.size() == last.size();
    for (size_t i = 0; same && i < r.size(); i++) same = r[i] == last[i];
    if (!same) {
      std::ostringstream o; o << "results differ from a fresh solver's: "; for (double x : last) o << x << " "; o << "vs "; for (double x : r) o << x << " ";
      on_fault("result depends on schedule or history", o.str(), sched::schedule());
    }
  };
  sched::Stats st = sched::explore(c, b, &arg, on_fault);
  vp::count("traces", st.runs); vp::count("transitions", st.steps); vp::count("states", st.nodes + 1);
  vp::count("schedules_with_preemption", st.preempted_runs); vp::count("schedules_with_spurious_wakeup", st.spurious_runs);
  vp::count("race_checked_accesses", st.accesses);
  if (st.max_depth > vp::ctx().counters["max_decisions"]) vp::ctx().counters["max_decisions"] = st.max_depth;
  vp::nontrivial(st.runs > 1);
  vp::sample([&] { return "history " + h + " preemptions<=" + std::to_string(pre) + " spurious<=" + std::to_string(spu) + ": " + std::to_string(st.runs) + " schedules, last " + sched::schedule(); });
}

int main(int argc, char** argv) {
  vp::init(argc, argv);
  buf = (char*)aligned_alloc(64, (sizeof(Solver) + 127) / 64 * 64);
  bool th = vp::thorough();
  const std::string al = "IRabcde";
  run("", 3, 0); run("R", 3, 0); run("I", 4, 1); run("II", 4, 1); run("IR", 4, 1); run("IIR", 3, 1);
  for (char a : al) run(std::string("IR") + a, th ? 8 : 4, th ? 2 : 1);
  for (char a : al) for (char b : al) run(std::string("IR") + a + b, th ? 4 : 3, 1);
  for (char a : al) for (char b : al) for (char c : al) run(std::string("IR") + a + b + c, th ? 3 : 2, th ? 2 : 1);
  const char* hand[] = {"IRabrab", "Irabc", "IraIRbd", "IRdIrdRdI", "IRabdRab", "IRIbIaI", "IRbbbb", "IRbdbb", "IRcbcb", "IRebeae", "RIab", "RIaRIbd", "IRaIbIdI", "IRbaIIRba"};
  for (auto h : hand) run(h, 2, th ? 1 : 0);
  if (th) for (char a : al) for (char b : al) for (char c : al) for (char d : al) run(std::string("IR") + a + b + c + d, 2, 0);
  return vp::finish();
}
