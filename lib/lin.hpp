// Linearisability of a recorded history against a sequential specification (Wing and Gong's search).
#pragma once
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>
#include "vsched.hpp"

namespace lin {

struct Op {
	int thread = 0;
	int kind = 0;
	long arg = 0;
	long result = 0;
	bool ok = true;
	int call = 0, ret = -1;   // Positions in the history; ret < 0: still pending.
	std::string text;
};

struct History {
	std::vector<Op> ops;
	int clock = 0;
	int begin(int kind, long arg, const std::string & text) {
		vs::Quiet quiet;
		Op o; o.thread = vs::tid(); o.kind = kind; o.arg = arg; o.call = clock++; o.text = text;
		vs::event((uint64_t) (1000 + kind * 64 + arg));
		ops.push_back(o);
		return (int) ops.size() - 1;
	}
	void end(int i, long result, bool ok) {
		vs::Quiet quiet;
		Op & o = ops[(size_t) i];
		o.result = result; o.ok = ok; o.ret = clock++;
		vs::event((uint64_t) (77777 + result * 2 + ok));
	}
	std::string str() const {
		std::string s;
		for (auto & o : ops) s += " t" + std::to_string(o.thread) + ":" + o.text + "[" + std::to_string(o.call) + "," + (o.ret < 0 ? std::string("pending") : std::to_string(o.ret)) + "]" +
			(o.ret < 0 ? "" : "=" + std::string(o.ok ? "" : "!") + std::to_string(o.result));
		return s;
	}
};

// State: a vector of longs. step(state, op): whether the completed op may take effect in this state with its result (and changes the state).
// blocked(state, op): whether the pending op is rightly still waiting in this state.
typedef std::vector<long> State;
inline bool search(const std::vector<Op> & ops, uint64_t done, const State & s, const std::function<bool (State &, const Op &)> & step,
                   const std::function<bool (const State &, const Op &)> & blocked, std::unordered_set<uint64_t> & seen) {
	uint64_t k = vk::hash(s.data(), s.size() * sizeof(long), done * 0x9e3779b97f4a7c15ull + 17);
	if (!seen.insert(k).second) return false;
	bool all = true;
	int firstRet = 1 << 30;
	for (size_t m = 0; m < ops.size(); ++m) if (!(done >> m & 1) && ops[m].ret >= 0) { all = false; firstRet = std::min(firstRet, ops[m].ret); }
	if (all) {
		for (size_t m = 0; m < ops.size(); ++m) if (ops[m].ret < 0 && !blocked(s, ops[m])) return false;
		return true;
	}
	for (size_t m = 0; m < ops.size(); ++m) {
		if (done >> m & 1 || ops[m].ret < 0 || ops[m].call > firstRet) continue;
		State n = s;
		if (step(n, ops[m]) && search(ops, done | 1ull << m, n, step, blocked, seen)) return true;
	}
	return false;
}
inline bool linearisable(const History & h, const State & init, const std::function<bool (State &, const Op &)> & step,
                         const std::function<bool (const State &, const Op &)> & blocked) {
	std::unordered_set<uint64_t> seen;
	return search(h.ops, 0, init, step, blocked, seen);
}

} // namespace lin
