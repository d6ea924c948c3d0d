// Controlled scheduler for stateless model checking of the real code.
//
// The code under test is compiled with the thread sanitiser's instrumentation, but linked with this runtime instead of
// the sanitiser's. One thread runs at a time. At every synchronisation operation the explorer decides who runs next, and
// it enumerates every such sequence of decisions within the bounds. Data races are found by happens-before clocks in
// every execution. See vsched.cpp.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "vk.hpp"

namespace vs {

struct Bounds {
	int preemptions = 2;   // Switches away from a thread that could have gone on.
	int timeouts = 1;      // Timed waits that expire although some thread can run.
	int spurious = 0;      // Spurious wake-ups of condition variables.
	bool isolate = false;  // Each schedule in a process of its own (for code with process-wide state).
	bool split = false;    // Divide the schedules of this scenario over the shards (otherwise one shard takes it all).
	bool races = true;     // Report data races.
	size_t maxSteps = 30000;
};

struct Blocked { int tid; const char * what; std::string label; };

// Explores every schedule of body. body runs as a thread of its own, creates threads, joins them and judges the result.
// stuck: called when no thread can run although some have not ended; it returns "" if that is right, and otherwise what is wrong.
void explore(vk::Ctx & ctx, const std::string & name, const Bounds & bounds, const std::function<void ()> & body,
             const std::function<std::string (const std::vector<Blocked> &)> & stuck = nullptr);

void fail(const std::string & key, const std::string & detail);  // From code under exploration: this schedule violates the property.
int choose(int n);                 // A free choice: every value in [0, n) is explored.
void point();                      // An explicit scheduling point.
void event(uint64_t h);            // An event of the global history (real time order matters to the harness).
void label(const std::string & s); // What this thread is doing, for reports and for the stuck callback.
int tid();                         // 0 for body, then in order of creation.
void outcome(const std::string & s);  // Count an outcome.
uint64_t now();                    // Virtual nanoseconds.
bool killing();

// The harness's own bookkeeping: neither scheduled nor watched for races.
struct Quiet { bool old; Quiet(); ~Quiet(); };

} // namespace vs
