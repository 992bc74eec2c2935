// Controlled scheduler for real pthread programs (stateless model checking of the
// implementation) with a happens-before race detector for a registered memory range.
#pragma once
#include <string>
#include <vector>
namespace sched {
struct Config { int preemptions = 2; int spurious = 1; long max_runs = 0; };
struct Stats { long runs = 0, nodes = 0, steps = 0, max_depth = 0, preempted_runs = 0, spurious_runs = 0; bool capped = false; long accesses = 0; };
// range of addresses whose synchronisation objects are scheduling points and whose bytes are race checked
void watch(const void* p, size_t n);
// explores all schedules of body(); on a fault calls on_fault(kind, schedule) which must not return normally into body
typedef void (*Body)(void*);
typedef void (*Fault)(const char* kind, const std::string& detail, const std::string& schedule);
Stats explore(const Config& c, Body body, void* arg, Fault f);
std::string schedule();      // decisions of the current run
int threads_alive();         // threads created in this run that have not exited (without main)
}
