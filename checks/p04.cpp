// Cyclic barrier: in every round no thread leaves before all have arrived, everyone leaves, and what was written before
// the barrier is visible after it; also after reconfiguration.
#include <thread>
#include <Balau/Concurrent/CyclicBarrier.hpp>
#include "vsched.hpp"

using Balau::Concurrent::CyclicBarrier;

void scenario(vk::Ctx & ctx, std::vector<std::pair<unsigned, unsigned>> phases, vs::Bounds b) {   // (threads, rounds) per configuration
	std::string name = "barrier";
	for (auto & p : phases) name += " [" + std::to_string(p.first) + " threads, " + std::to_string(p.second) + " rounds]";
	vs::explore(ctx, name, b, [&] {
		CyclicBarrier barrier(phases[0].first);
		std::string order;
		bool first = true;
		for (auto & ph : phases) {
			if (!first) barrier.reconfigure(ph.first);
			first = false;
			unsigned n = ph.first, rounds = ph.second;
			std::vector<unsigned> arrived(rounds, 0), left(rounds, 0);
			std::vector<int> slot(n * rounds, 0);
			auto run = [&] (unsigned id) {
				for (unsigned r = 0; r < rounds; ++r) {
					slot[id * rounds + r] = (int) (id + 1);
					{ vs::Quiet quiet; ++arrived[r]; vs::event(id * 16 + r); vs::label("in round " + std::to_string(r)); }
					barrier.countdown();
					{
						vs::Quiet quiet;
						vs::event(1000 + id * 16 + r);
						vs::label("past round " + std::to_string(r));
						order += (char) ('a' + id);
						if (arrived[r] != n) vs::fail("left early", "thread " + std::to_string(id) + " left round " + std::to_string(r) + " when " + std::to_string(arrived[r]) + " of " + std::to_string(n) + " had arrived");
						++left[r];
					}
					// Reads what the others wrote before the barrier: a race if the barrier does not order it.
					int sum = 0;
					for (unsigned m = 0; m < n; ++m) sum += slot[m * rounds + r];
					if (sum != (int) (n * (n + 1) / 2)) vs::fail("not visible", "a write before the barrier is not seen after it");
				}
			};
			std::vector<std::thread> ts;
			for (unsigned t = 1; t < n; ++t) ts.emplace_back(run, t);
			run(0);
			for (auto & t : ts) t.join();
		}
		vs::Quiet quiet;
		ctx.nontrivial(vk::hash(name + order));
	});
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	bool deep = ctx.thorough();
	vs::Bounds b;
	b.split = true;
	b.preemptions = 4; b.spurious = 1;
	scenario(ctx, { { 1, 3 } }, b);
	scenario(ctx, { { 2, 1 } }, b);
	scenario(ctx, { { 2, 2 } }, b);
	b.preemptions = deep ? 4 : 3;
	scenario(ctx, { { 2, 3 } }, b);
	scenario(ctx, { { 3, 1 } }, b);
	scenario(ctx, { { 1, 1 }, { 2, 1 }, { 1, 2 } }, b);
	scenario(ctx, { { 2, 1 }, { 2, 2 } }, b);
	b.preemptions = deep ? 3 : 2; b.spurious = deep ? 1 : 0;
	scenario(ctx, { { 3, 2 } }, b);
	scenario(ctx, { { 2, 4 } }, b);
	scenario(ctx, { { 2, 2 }, { 3, 1 } }, b);
	scenario(ctx, { { 3, 1 }, { 2, 2 } }, b);
	b.preemptions = deep ? 2 : 1; b.spurious = 0;
	scenario(ctx, { { 3, 3 } }, b);
	scenario(ctx, { { 4, 1 } }, b);
	if (!deep) b.preemptions = 0;
	scenario(ctx, { { 4, 2 } }, b);
	if (deep) { b.preemptions = 1; scenario(ctx, { { 5, 1 } }, b); }
	return ctx.finish();
}
