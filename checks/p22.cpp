// Shared memory objects: every sequence of operations on names and handles, of a bounded length, against a table of names.
#include <dirent.h>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
#include <Balau/Interprocess/MSharedMemoryObject.hpp>
#include <Balau/Interprocess/USharedMemoryObject.hpp>
#include "vk.hpp"

using namespace Balau::Interprocess;
typedef std::string S;

template <size_t N> struct Block {
	long v;
	char pad[N];
	Block() : Block(-1) {}
	explicit Block(long x) : v(x) { if (x == -5) throw std::runtime_error("no"); fill(); }
	Block(long x, long y) : v(x * 100 + y) { fill(); }
	Block(long x, const S & s, char c) : v(x * 100 + (long) s.size() * 10 + (c - '0')) { fill(); }
	void fill() { for (size_t m = 0; m < N; ++m) pad[m] = (char) ((v * 7 + (long) m) & 0xff); }
	void set(long x) { v = x; fill(); }
	bool whole() const { for (size_t m = 0; m < N; ++m) if (pad[m] != (char) ((v * 7 + (long) m) & 0xff)) return false; return true; }
};
template <size_t A> struct alignas(A) Aligned { long v; explicit Aligned(long x) : v(x) {} };
struct One { unsigned char c; explicit One(int x) : c((unsigned char) x) {} };

S prefix() { return "vkP22_" + std::to_string(getpid()) + "_"; }
S nameOf(int n) { return prefix() + (char) ('a' + n); }

std::vector<S> files(const S & start) {
	std::vector<S> out;
	if (DIR * d = opendir("/dev/shm")) {
		while (dirent * e = readdir(d)) if (S(e->d_name).compare(0, start.size(), start) == 0) out.push_back(e->d_name);
		closedir(d);
	}
	return out;
}
void removeAll() { for (auto & f : files(prefix())) unlink(("/dev/shm/" + f).c_str()); }
// The shared memory files that this process has mapped.
std::vector<S> mapped() {
	std::vector<S> out;
	std::ifstream in("/proc/self/maps");
	for (S l; std::getline(in, l);) { size_t i = l.find("/dev/shm/"); if (i != S::npos && l.find("(deleted)") == S::npos) out.push_back(l.substr(i)); }
	return out;
}
bool exists(const S & path) { return access(path.c_str(), F_OK) == 0; }

template <typename O> long valueOf(const O & o) { return o->whole() && (*o).whole() ? (*o).v : -999; }

// A sequence: see letters below. The model: objects are numbered, names map to objects.
template <typename O> struct Explorer {
	static const int SLOTS = 3, NAMES = 2;
	vk::Ctx & ctx;
	S kind;
	size_t depth;
	std::unique_ptr<O> slot[SLOTS];
	struct Handle { int object = -1; bool owner = false, readOnly = false; int name = -1; } h[SLOTS];
	std::vector<long> values;
	int table[NAMES] = { -1, -1 };
	long next = 10;
	S seq;

	void bad(const S & what) { ctx.violation(kind + ": " + what, kind + ":" + seq); }

	void reset() {
		for (auto & s : slot) s.reset();
		removeAll();
		for (auto & x : h) x = Handle();
		values.clear(); table[0] = table[1] = -1; next = 10; seq.clear();
	}
	void dropped(Handle & x) { if (x.owner) table[x.name] = -1; x = Handle(); }

	// Whether the operation is part of the sequences: fills the first free slot only; leaves out names that are created anew while their owner is there.
	bool allowed(const S & op) {
		int a = op[1] - '0', b = op.size() > 2 ? op[2] - '0' : 0;
		int free = 0; while (free < SLOTS && h[free].object >= 0) ++free;
		switch (op[0]) {
			case 'C': if (free == SLOTS) return false; for (auto & x : h) if (x.owner && x.name == a) return false; return true;
			case 'A': case 'O': case 'R': return free < SLOTS;
			case 'W': return h[a].object >= 0 && !h[a].readOnly;
			case 'D': return h[a].object >= 0;
			case 'M': return h[a].object >= 0 && (h[b].object >= 0 ? a != b : b == free);
		}
		return false;
	}
	void perform(const S & op, bool probe) {
		++ctx.transitions;
		seq += " " + op;
		int a = op[1] - '0', b = op.size() > 2 ? op[2] - '0' : 0;
		int free = 0; while (free < SLOTS && h[free].object >= 0) ++free;
		++next;
		try {
			switch (op[0]) {
				case 'C':
					slot[free].reset(new O(CreateOnlySelector(), nameOf(a), next));
					values.push_back(next);
					h[free] = Handle { (int) values.size() - 1, true, false, a };
					table[a] = h[free].object;
					break;
				case 'A':
					slot[free].reset(new O(OpenOrCreateSelector(), nameOf(a), next));
					if (table[a] < 0) { values.push_back(next); table[a] = (int) values.size() - 1; h[free] = Handle { table[a], true, false, a }; }
					else h[free] = Handle { table[a], false, false, a };
					break;
				case 'O': case 'R': {
					bool thrown = false;
					try { if (op[0] == 'O') slot[free].reset(new O(OpenOnlySelector(), nameOf(a))); else slot[free].reset(new O(OpenReadOnlySelector(), nameOf(a))); } catch (const std::exception &) { thrown = true; }
					if (thrown != (table[a] < 0)) bad(thrown ? "an existing object cannot be opened" : "an object that does not exist is opened");
					if (thrown || table[a] < 0) slot[free].reset(); else h[free] = Handle { table[a], false, op[0] == 'R', a };
					break;
				}
				case 'W': (*slot[a])->set(next); values[(size_t) h[a].object] = next; break;
				case 'D': slot[a].reset(); dropped(h[a]); break;
				case 'M': {
					Handle x = h[a];
					h[a] = Handle();
					if (h[b].object >= 0) {
						*slot[b] = std::move(*slot[a]);
						dropped(h[b]);
					} else slot[b].reset(new O(std::move(*slot[a])));
					slot[a].reset();   // What was moved from holds nothing.
					h[b] = x;
					break;
				}
			}
		} catch (const std::exception & e) {
			bad(S("an operation failed: ") + op[0]);
			return;
		}
		if (!probe) return;   // The shorter sequence has been looked at already.
		for (int m = 0; m < SLOTS; ++m) if (h[m].object >= 0 && slot[m]) {
			const O & o = *slot[m];
			if (valueOf(o) != values[(size_t) h[m].object]) bad("a handle gives another value");
		}
		for (int n = 0; n < NAMES; ++n) {
			bool there = false; long v = -1;
			try { O o(OpenOnlySelector(), nameOf(n)); there = true; v = valueOf(o); } catch (const std::exception &) {}
			if (there != (table[n] >= 0)) bad(there ? "a name is left behind" : "a name has gone");
			else if (there && v != values[(size_t) table[n]]) bad("a name leads to another value");
			if (files(nameOf(n)).empty() != (table[n] < 0)) bad("a file is left behind or has gone");
		}
	}
	void explore(const std::vector<S> & ops, const std::vector<S> & start) {
		std::vector<S> path = start;
		std::function<void ()> rec = [&] {
			// Replayed from the beginning: handles cannot be copied.
			reset();
			for (size_t m = 0; m < path.size(); ++m) { if (!allowed(path[m])) return; perform(path[m], m + 1 == path.size() || path.size() == start.size()); }
			++ctx.traces;
			ctx.beat();
			ctx.nontrivial(vk::hash(kind + seq));
			std::vector<S> more;
			if (path.size() < depth) for (auto & o : ops) if (allowed(o)) more.push_back(o);
			if (more.empty()) {
				// In the end nothing is left.
				for (int m = 0; m < SLOTS; ++m) if (h[m].object >= 0) perform("D" + std::to_string(m), true);
			}
			for (auto & o : more) { path.push_back(o); rec(); path.pop_back(); }
		};
		rec();
		reset();
	}
};

template <typename O> void sequences(vk::Ctx & ctx, const S & kind, size_t depth) {
	std::vector<S> ops { "C0", "C1", "A0", "A1", "O0", "O1", "R0", "R1" };
	for (S c : { "W", "D" }) for (int m = 0; m < 3; ++m) ops.push_back(c + std::to_string(m));
	for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) ops.push_back("M" + std::to_string(a) + std::to_string(b));
	for (auto & first : ops) for (auto & second : ops) {
		if (!ctx.begin([&] { return kind + ": sequences of " + std::to_string(depth) + " operations starting with " + first + " " + second; })) continue;
		Explorer<O> e { ctx, kind, depth };
		e.explore(ops, { first, second });
	}
}

// Construction: arguments, generated names, sizes.
template <template <typename> class O, size_t ALIGN> void construction(vk::Ctx & ctx, const S & kind) {
	auto good = [&] (bool ok, const S & what) { ++ctx.traces; ctx.check(ok, kind + ": " + what, [&] { return kind + ": " + what; }); };
	if (ctx.begin([&] { return kind + ": constructor arguments"; })) {
		typedef Block<40> B;
		S n = nameOf(0);
		{ O<B> o; good(o->v == -1 && o->whole(), "no argument"); }
		{ O<B> o(7L); good(o->v == 7, "one argument"); }
		{ O<B> o(7L, 8L); good(o->v == 708, "two arguments"); }
		{ O<B> o(7L, S("abc"), '5'); good(o->v == 735, "three arguments"); }
		{ O<B> o(CreateOnlySelector(), n); good(o->v == -1, "created by name, no argument"); }
		{ O<B> o(CreateOnlySelector(), n, 7L, 8L); good(o->v == 708, "created by name, two arguments"); }
		{ O<B> o(OpenOrCreateSelector(), n); good(o->v == -1, "opened or created, no argument"); }
		{ O<B> o(OpenOrCreateSelector(), n, 7L, S("abc"), '5'); good(o->v == 735, "opened or created, three arguments"); O<B> p(OpenOrCreateSelector(), n, 1L); good(p->v == 735 && &*p != nullptr, "opened, arguments ignored"); }
		good(files(prefix()).empty(), "files left behind");
		// A construction that fails leaves nothing.
		for (int way = 0; way < 2; ++way) {
			bool thrown = false;
			try { if (way) O<B> o(CreateOnlySelector(), n, -5L); else O<B> o(OpenOrCreateSelector(), n, -5L); } catch (const std::runtime_error &) { thrown = true; }
			good(thrown, "the exception of the object's constructor is lost");
			bool there = true;
			try { O<B> o(OpenOnlySelector(), n); } catch (const std::exception &) { there = false; }
			good(!there, "an object whose constructor threw can be opened");
			{ O<B> o(OpenOrCreateSelector(), n, 4L); good(o->v == 4 && o->whole(), "created after a failure"); }
			good(files(prefix()).empty(), "files left behind after a failure");
		}
		// Created anew after the owner has gone, and over a leftover of another size.
		{ std::ofstream("/dev/shm/" + n + (kind == "managed" ? "_memory" : "")) << S(10000, 'x'); O<B> o(CreateOnlySelector(), n, 3L); good(o->v == 3 && o->whole(), "created over a leftover"); O<B> p(OpenOnlySelector(), n); good(p->v == 3, "opened what was created over a leftover"); }
		good(files(prefix()).empty(), "files left behind");
	}
	if (ctx.begin([&] { return kind + ": generated names"; })) {
		std::set<S> before; for (auto & f : mapped()) before.insert(f);
		std::vector<S> mine;
		{
			std::vector<std::unique_ptr<O<Block<8>>>> all;
			for (long m = 0; m < 6; ++m) all.emplace_back(new O<Block<8>>(m));
			for (auto & f : mapped()) if (!before.count(f)) mine.push_back(f);
			std::sort(mine.begin(), mine.end()); mine.erase(std::unique(mine.begin(), mine.end()), mine.end());
			good(mine.size() == 6, "objects with generated names share a name");
			for (long m = 0; m < 6; ++m) good((*all[(size_t) m])->v == m, "generated names: values");
			(*all[2])->set(77);
			for (long m = 0; m < 6; ++m) good((*all[(size_t) m])->v == (m == 2 ? 77 : m), "generated names: values after a write");
		}
		for (auto & f : mine) { good(!exists(f), "a generated name is left behind"); unlink(f.c_str()); }
	}
	if (ctx.begin([&] { return kind + ": sizes"; })) {
		auto sized = [&] (auto zero, size_t) {
			typedef decltype(zero) B;
			S n = nameOf(0);
			for (int way = 0; way < 2; ++way) {
				std::unique_ptr<O<B>> a(way ? new O<B>(OpenOrCreateSelector(), n, 5L) : new O<B>(CreateOnlySelector(), n, 5L));
				O<B> b(OpenOnlySelector(), n); O<B> c(OpenReadOnlySelector(), n); O<B> d(OpenOrCreateSelector(), n, 6L);
				good((*a)->whole() && valueOf(b) == 5 && valueOf(c) == 5 && valueOf(d) == 5, "size " + std::to_string(sizeof(B)));
				b->set(9);
				good(valueOf(*a) == 9 && valueOf(b) == 9 && valueOf(c) == 9 && valueOf(d) == 9, "size " + std::to_string(sizeof(B)) + " after a write");
				d->set(13);
				good(valueOf(*a) == 13 && valueOf(b) == 13 && valueOf(c) == 13 && valueOf(d) == 13, "size " + std::to_string(sizeof(B)) + " after another write");
			}
		};
		sized(Block<1>(), 1); sized(Block<100>(), 1); sized(Block<480>(), 1); sized(Block<500>(), 1); sized(Block<520>(), 1); sized(Block<1000>(), 1); sized(Block<3560>(), 1); sized(Block<3584>(), 1); sized(Block<4000>(), 1);
		sized(Block<4088>(), 1); sized(Block<4096>(), 1); sized(Block<8000>(), 1); sized(Block<65536>(), 1); sized(Block<1000000>(), 1);
		{ O<One> o(200); good(o->c == 200, "one byte"); }
		good(files(prefix()).empty(), "files left behind");
	}
	if (ctx.begin([&] { return kind + ": alignment"; })) {
		for (int m = 0; m < 4; ++m) {
			S n = nameOf(0) + S((size_t) m * 3, 'x');
			O<Aligned<ALIGN>> a(CreateOnlySelector(), n, 5L); O<Aligned<ALIGN>> b(OpenOnlySelector(), n);
			good((uintptr_t) &*a % ALIGN == 0 && (uintptr_t) &*b % ALIGN == 0 && b->v == 5, "alignment");
		}
	}
	if (ctx.begin([&] { return kind + ": lengths of names"; })) {
		for (size_t len = 1; len <= 200; ++len) {
			S n = nameOf(0) + S(len, 'n');
			try {
				O<Block<16>> a(CreateOnlySelector(), n, 5L); O<Block<16>> b(OpenOnlySelector(), n); O<Block<16>> c(OpenOrCreateSelector(), n + "y", 6L);
				good(a->v == 5 && b->v == 5 && c->v == 6, "name of " + std::to_string(n.size()) + " characters");
			} catch (const std::exception &) { good(false, "name of " + std::to_string(n.size()) + " characters refused"); }
			good(files(prefix()).empty(), "files left behind");
		}
	}
}

// Processes: parent and child act on the same object in turns, whichever way each came by it.
template <typename O> void processes(vk::Ctx & ctx, const S & kind) {
	const char * ways[] = { "inherited", "opened", "opened read-only", "opened or created" };
	for (int way = 0; way < 4; ++way) for (int creator = 0; creator < 2; ++creator) for (int moves = 0; moves < 8; ++moves) {
		if (creator && way == 0) continue;
		if (!ctx.begin([&] { return kind + ": two processes, the other has it " + ways[way] + (creator ? " from the child" : "") + ", writers " + std::to_string(moves); })) continue;
		++ctx.traces;
		S n = nameOf(1);
		removeAll();
		auto bad = [&] (const S & what) { ctx.violation(kind + ": processes: " + what, kind + ": " + what + ": other " + ways[way] + (creator ? ", created by the child" : "") + ", writers " + std::to_string(moves)); };
		int up[2], down[2];
		if (pipe(up) || pipe(down)) { bad("pipe"); continue; }
		std::unique_ptr<O> o;
		if (!creator) o.reset(new O(CreateOnlySelector(), n, 1L));
		pid_t child = fork();
		auto other = [&] () -> O * {
			switch (way) { case 1: return new O(OpenOnlySelector(), n); case 2: return new O(OpenReadOnlySelector(), n); default: return new O(OpenOrCreateSelector(), n, 50L); }
		};
		auto turns = [&] (O & x, bool me, int in, int out) {   // Returns 0, or the turn that went wrong.
			long expect = 1;
			for (int m = 0; m < 3; ++m) {
				bool childWrites = moves >> m & 1;
				if (way == 2 && childWrites != (creator != 0)) childWrites = creator != 0;   // The one that may only read does not write.
				char c = 'x';
				if (childWrites == me) { x->set(expect = 10 + m); if (write(out, &c, 1) != 1) return 1; if (read(in, &c, 1) != 1) return 2; }
				else { if (read(in, &c, 1) != 1) return 3; expect = 10 + m; if (valueOf(x) != expect) return 10 + m; if (write(out, &c, 1) != 1) return 4; }
			}
			return 0;
		};
		if (child == 0) {
			int r = 99;
			try {
				alarm(5);
				close(up[0]); close(down[1]);
				char c = 'x';
				std::unique_ptr<O> x;
				if (creator) { x.reset(new O(CreateOnlySelector(), n, 1L)); if (write(up[1], &c, 1) != 1) _exit(97); }
				O * mine = creator ? x.get() : way == 0 ? o.get() : (x.reset(other()), x.get());
				if constexpr (std::is_same<O, USharedMemoryObject<Block<40>>>::value) if (way == 0) mine->remap();
				r = turns(*mine, true, down[0], up[1]);
				if (creator && read(down[0], &c, 1) != 1) r = 96;
				x.reset();
			} catch (const std::exception &) { r = 98; }
			_exit(r);
		}
		int r = 99;
		close(up[1]); close(down[0]);
		try {
			char c = 'x';
			if (creator) { if (read(up[0], &c, 1) != 1) bad("the child did not create it"); o.reset(other()); }
			r = turns(*o, false, up[0], down[1]);
			if (creator && write(down[1], &c, 1) != 1) bad("write");
		} catch (const std::exception &) { r = 98; }
		close(up[0]); close(down[1]);
		int status = 0;
		waitpid(child, &status, 0);
		if (r) bad("parent, step " + std::to_string(r));
		if (status) bad("child, status " + std::to_string(status));
		bool there = true;
		try { O p(OpenOnlySelector(), n); } catch (const std::exception &) { there = false; }
		if (there == (creator != 0)) bad(there ? "the name is left although its owner has gone" : "the name has gone although its owner is there");
		o.reset();
		if (!files(n).empty()) bad("a file is left behind");
		removeAll();
		ctx.nontrivial(vk::hash(kind) + (uint64_t) (way * 100 + creator * 10 + moves));
	}
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	size_t depth = ctx.thorough() ? 6 : 4;
	construction<MSharedMemoryObject, 8>(ctx, "managed");
	construction<USharedMemoryObject, 64>(ctx, "unmanaged");
	processes<MSharedMemoryObject<Block<40>>>(ctx, "managed");
	processes<USharedMemoryObject<Block<40>>>(ctx, "unmanaged");
	sequences<MSharedMemoryObject<Block<40>>>(ctx, "managed", depth);
	sequences<USharedMemoryObject<Block<40>>>(ctx, "unmanaged", depth);
	removeAll();
	ctx.finish();
	return 0;
}
