/*
Small explicit-state / stateless model checking runtime.

A harness is one translation unit that registers scenarios and links against nothing but
the headers of the library under test. "--list" prints the scenarios, "--run NAME OUT"
explores one scenario exhaustively and writes its counters (or its violation) to OUT.
*/

#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <complex>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <new>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

// some headers of the library leave these to whoever includes them
using std::min;
using std::max;

#ifndef MC_FLAVOUR
#define MC_FLAVOUR "fast"
#endif
#if defined(__SANITIZE_ADDRESS__)
#define MC_SAN 1
#else
#define MC_SAN 0
#endif

namespace mc {

typedef long long i64;
typedef unsigned long long u64;
typedef long double ld;

// ---------------------------------------------------------------- bookkeeping

struct Result
{
	u64 states = 0, transitions = 0, traces = 0, evals = 0;
	bool exhaustive = true;
	std::vector<std::string> notes, samples;
	std::unordered_set<u64> outcomes;
	bool outcomes_capped = false;
};

inline Result res;
inline int tier = 0; // 0 quick, 1 thorough
inline const bool san = MC_SAN;
inline std::string out_path, cur_name;
inline volatile u64 progress = 0;
inline std::function<std::string()> describe; // the execution currently explored
inline sigjmp_buf assert_jmp;
inline volatile bool assert_expected = false;
inline volatile bool failing = false;

inline bool thorough() { return tier > 0; }
// pick a bound: sanitized builds are about ten times slower
template <class T> inline T pick(T sanitized, T quick, T deep) { return MC_SAN && !thorough() ? sanitized : thorough() && !MC_SAN ? deep : quick; }

inline std::string esc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

__attribute__((format(printf, 1, 2)))
inline std::string str(const char *fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	return b;
}

inline void write_out(const char *violation)
{
	FILE *f = out_path.empty() ? stdout : fopen(out_path.c_str(), "w");
	if (!f) _exit(3);
	fprintf(f, "{\"scenario\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evals\":%llu,\"distinct\":%llu,\"distinct_capped\":%s,\"exhaustive\":%s",
		esc(cur_name).c_str(), res.states, res.transitions, res.traces, res.evals, (u64)res.outcomes.size(),
		res.outcomes_capped ? "true" : "false", res.exhaustive ? "true" : "false");
	fprintf(f, ",\"samples\":[");
	for (size_t i = 0; i < res.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(res.samples[i]).c_str());
	fprintf(f, "],\"notes\":[");
	for (size_t i = 0; i < res.notes.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(res.notes[i]).c_str());
	fprintf(f, "]");
	if (violation) fprintf(f, ",\"violation\":\"%s\"", esc(violation).c_str());
	fprintf(f, "}\n");
	fflush(f);
	if (f != stdout) fclose(f);
}

inline void cleanup();

[[noreturn]] inline void fail_msg(const std::string &msg)
{
	if (failing) _exit(97); // crash while reporting: the runner takes the exit as the violation
	failing = true;
	std::string all = msg;
	if (describe) { all += "\ntrace: "; all += describe(); }
	write_out(all.c_str());
	cleanup();
	_exit(1);
}

#define MC_FAIL(...) mc::fail_msg(mc::str(__VA_ARGS__))
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail_msg(std::string("failed: " #cond ": ") + mc::str(__VA_ARGS__)); } while (0)

inline void note(const std::string &s) { res.notes.push_back(s); }
inline void sample(const std::string &s) { if (res.samples.size() < 3) res.samples.push_back(s); }
inline bool want_sample() { return res.samples.size() < 3; }
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
inline void outcome(u64 h)
{
	if (res.outcomes.size() < 200000) res.outcomes.insert(h);
	else if (!res.outcomes.count(h)) res.outcomes_capped = true;
}
template <class T> inline u64 bits(T v)
{
	u64 b = 0;
	memcpy(&b, &v, sizeof(v) < 8 ? sizeof(v) : 8);
	return b;
}
inline void step() { ++progress; ++res.transitions; }

// ---------------------------------------------------------------- scratch files

inline std::string scratch_dir;
inline std::string scratch(const char *name)
{
	if (scratch_dir.empty()) {
		const char *base = getenv("MC_SCRATCH"); // removed by the runner, whatever happens to this process
		if (!base) base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
		std::string t = std::string(base) + "/mcXXXXXX";
		std::vector<char> b(t.begin(), t.end());
		b.push_back(0);
		if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(3); }
		scratch_dir = b.data();
	}
	return scratch_dir + "/" + name;
}
inline std::set<std::string> scratch_names;
inline std::string scratch_file(const char *name) { scratch_names.insert(name); return scratch(name); }
inline void cleanup()
{
	if (scratch_dir.empty()) return;
	for (auto &n : scratch_names) unlink((scratch_dir + "/" + n).c_str());
	rmdir(scratch_dir.c_str());
	scratch_dir.clear();
}

// ---------------------------------------------------------------- floating point oracle helpers
// bit level so that they also work under -ffast-math

inline bool finite_bits(double v) { u64 b; memcpy(&b, &v, 8); return ((b >> 52) & 2047) != 2047; }
inline bool finite_bits(float v) { uint32_t b; memcpy(&b, &v, 4); return ((b >> 23) & 255) != 255; }
inline bool finite_bits(long double v) { return finite_bits((double)v); }
inline bool near(double a, double b, double tol)
{
	if (!finite_bits(a) || !finite_bits(b)) return bits(a) == bits(b);
	double d = a - b;
	if (d < 0) d = -d;
	return d <= tol;
}
template <class T> inline double eps() { return (double)std::numeric_limits<T>::epsilon(); }

// ---------------------------------------------------------------- scenarios

struct Scenario { std::string name; std::function<void()> fn; };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }
inline void scenario(const std::string &name, std::function<void()> fn) { scenarios().push_back({name, fn}); }

inline void on_crash(int sig)
{
	fail_msg(str("crash: signal %d (%s)", sig, strsignal(sig)));
}

inline int stall_limit = 30;
inline void on_tick(int)
{
	static u64 last = ~0ULL;
	static int stalled = 0;
	if (progress != last) { last = progress; stalled = 0; return; }
	if (++stalled >= stall_limit)
		fail_msg(str("no termination: one operation used more than %d s of CPU time", stall_limit));
}

} // namespace mc

extern "C" {
inline void mc_assert_hook(const char *expr, const char *file, unsigned line)
{
	if (mc::assert_expected) { mc::assert_expected = false; siglongjmp(mc::assert_jmp, 1); }
	mc::fail_msg(mc::str("assertion of the library failed: %s (%s:%u)", expr, file, line));
}
void __assert_fail(const char *expr, const char *file, unsigned line, const char *) noexcept
{
	mc_assert_hook(expr, file, line);
	_exit(98);
}
}

namespace mc {

// true if calling f trips an assertion of the library
template <class F> bool asserts(F f)
{
	assert_expected = true;
	if (sigsetjmp(assert_jmp, 0)) return true;
	f();
	assert_expected = false;
	return false;
}

// ---------------------------------------------------------------- snapshots of real objects
// The object under test lives at one fixed address; its state is saved and restored bytewise,
// so the exploration works on the real implementation without looking at its members.

template <class Impl>
struct Arena
{
	alignas(64) unsigned char mem[sizeof(Impl)];
	typedef std::string Snap;
	Impl &get() { return *std::launder(reinterpret_cast<Impl *>(mem)); }
	template <class... A> Impl &make(int poison, A &&... a)
	{
		memset(mem, poison, sizeof mem);
		asm volatile("" : : "r"(mem) : "memory");
		return *new (mem) Impl(std::forward<A>(a)...);
	}
	Snap save() { asm volatile("" : : "r"(mem) : "memory"); return Snap((char *)mem, sizeof mem); }
	void load(const Snap &s) { memcpy(mem, s.data(), sizeof mem); asm volatile("" : : "r"(mem) : "memory"); }
};

template <class Impl> constexpr bool snapable = std::is_trivially_destructible<Impl>::value;

// ---------------------------------------------------------------- breadth first search to a fixpoint

// the search itself does not depend on the class under test, only on the model (this keeps compile times low)
template <class Model>
struct BfsCore
{
	struct Op
	{
		std::string name;
		std::function<bool(const Model &)> enabled;
		std::function<void(Model &)> apply; // acts on the object in the arena
	};
	struct Node { std::string snap; Model model; int parent, op, depth; };
	std::function<void(int)> make;
	std::function<std::string()> save;
	std::function<void(const std::string &)> load;
	std::function<std::string(const Model &)> key;
	std::function<void(const Model &)> check;
	std::vector<Op> ops;
	Model init;
	bool snaps;
	u64 max_states;
	int max_depth, tree_depth;

	__attribute__((noinline)) void run(int poison)
	{
		std::vector<Node> nodes;
		std::unordered_set<std::string> seen;
		int cur = -1, cur_op = -1;
		bool capped = false;
		auto path = [&](int n) {
			std::vector<int> p;
			for (; n > 0; n = nodes[n].parent) p.push_back(nodes[n].op);
			std::reverse(p.begin(), p.end());
			return p;
		};
		auto old = describe;
		describe = [&]() {
			std::string s = str("poison=%02x ", poison & 255);
			if (cur >= 0) for (int o : path(cur)) s += ops[o].name + " ";
			if (cur_op >= 0) s += ops[cur_op].name;
			return s;
		};
		make(poison);
		check(init);
		nodes.push_back({snaps ? save() : std::string(), init, -1, -1, 0});
		seen.insert(nodes[0].snap + key(init));
		++res.states;
		u64 deepest = 0;
		for (size_t n = 0; n < nodes.size(); ++n) {
			deepest = max<u64>(deepest, nodes[n].depth);
			if (nodes[n].depth >= max_depth || (!snaps && nodes[n].depth >= tree_depth)) { capped = true; continue; }
			if (nodes.size() >= max_states) { capped = true; break; }
			for (int o = 0; o < (int)ops.size(); ++o) {
				if (ops[o].enabled && !ops[o].enabled(nodes[n].model)) continue;
				cur = n; cur_op = o;
				if (snaps) {
					load(nodes[n].snap);
				} else {
					make(poison);
					Model m = init;
					for (int q : path(n)) ops[q].apply(m);
				}
				Model m = nodes[n].model;
				ops[o].apply(m);
				step();
				check(m);
				std::string snap = snaps ? save() : std::string();
				std::string mk = key(m);
				std::string k = snap + mk;
				outcome(std::hash<std::string>()(mk));
				if (!snaps) k += str("#%zu", nodes.size());
				if (seen.insert(k).second) {
					nodes.push_back({snap, m, (int)n, o, nodes[n].depth + 1});
					++res.states;
				}
			}
			cur_op = -1;
		}
		res.traces += nodes.size() - 1; // every state is reached by its own shortest operation sequence, executed on the real object
		if (nodes.size() > 2 && want_sample()) {
			std::string s = cur_name + ":";
			for (int o : path(nodes.size() - 1)) s += " " + ops[o].name;
			sample(s);
		}
		if (capped) res.exhaustive = false;
		note(str("%s poison=%02x: %zu states, depth %llu%s", cur_name.c_str(), poison & 255, nodes.size(), deepest,
			capped ? ", bounded" : ", fixpoint"));
		describe = old;
	}
};

template <class Impl, class Model>
struct Bfs
{
	struct Op
	{
		std::string name;
		std::function<bool(const Model &)> enabled;
		std::function<void(Impl &, Model &)> apply;
	};
	std::function<Impl &(Arena<Impl> &, int)> make;
	std::function<std::string(const Model &)> key;
	std::function<void(Impl &, const Model &)> check;
	std::vector<Op> ops;
	Model init;
	u64 max_states = 400000;
	int max_depth = 1 << 30, tree_depth = 7;

	void run(int poison)
	{
		static Arena<Impl> arena; // one address for the whole exploration
		BfsCore<Model> c;
		c.make = [this](int p) { make(arena, p); };
		c.save = []() { return arena.save(); };
		c.load = [](const std::string &s) { arena.load(s); };
		c.key = key;
		c.check = [this](const Model &m) { check(arena.get(), m); };
		for (auto &o : ops) c.ops.push_back({o.name, o.enabled, [&o](Model &m) { o.apply(arena.get(), m); }});
		c.init = init;
		c.snaps = snapable<Impl>;
		c.max_states = max_states;
		c.max_depth = max_depth;
		c.tree_depth = tree_depth;
		c.run(poison);
	}
};

// ---------------------------------------------------------------- all sequences over an alphabet, depth first

template <class Impl, class Make, class F>
void sequences(int alphabet, int length, Make make, F f, const char *const *names = nullptr)
{
	static Arena<Impl> arena;
	std::vector<int> path;
	auto old = describe;
	describe = [&]() {
		std::string s;
		for (int p : path) s += names ? std::string(names[p]) + " " : str("%d ", p);
		return s;
	};
	std::function<void()> rec = [&]() {
		if ((int)path.size() == length) {
			++res.traces;
			return;
		}
		std::string snap;
		if constexpr (snapable<Impl>) snap = arena.save();
		for (int a = 0; a < alphabet; ++a) {
			if constexpr (snapable<Impl>) {
				if (a) arena.load(snap);
			} else if (a) {
				make(arena);
				std::vector<int> p;
				for (int q : path) { p.push_back(q); f(arena.get(), (const int *)p.data(), (int)p.size()); }
			}
			path.push_back(a);
			f(arena.get(), (const int *)path.data(), (int)path.size());
			step();
			++res.states;
			rec();
			path.pop_back();
		}
	};
	make(arena);
	++res.states;
	rec();
	if (want_sample()) sample(str("%s: all %d^%d sequences", cur_name.c_str(), alphabet, length));
	describe = old;
}

// all sequences of operations on the implementation and a model of it, depth first; the model is copied at every branch
template <class Impl, class Model>
struct Dfs {
	struct Op { std::string name; std::function<void(Impl &, Model &)> run; };
	std::function<void(Arena<Impl> &, int)> make;
	std::vector<Op> ops;
	Arena<Impl> arena;
	void run(int length, const Model &start, int poison = 0x4B)
	{
		std::vector<int> path;
		auto old = describe;
		describe = [&]() {
			std::string s;
			for (int p : path) s += ops[p].name + " ";
			return s;
		};
		std::function<void(const Model &)> rec = [&](const Model &model) {
			if ((int)path.size() == length) {
				++res.traces;
				return;
			}
			std::string snap;
			if constexpr (snapable<Impl>) snap = arena.save();
			for (int a = 0; a < (int)ops.size(); ++a) {
				if constexpr (snapable<Impl>) {
					if (a) arena.load(snap);
				} else if (a) {
					make(arena, poison);
					Model m = start;
					for (int q : path) ops[q].run(arena.get(), m);
				}
				path.push_back(a);
				Model m = model;
				ops[a].run(arena.get(), m);
				step();
				++res.states;
				rec(m);
				path.pop_back();
			}
		};
		make(arena, poison);
		++res.states;
		rec(start);
		if (want_sample()) sample(str("%s: all %d^%d sequences", cur_name.c_str(), (int)ops.size(), length));
		describe = old;
	}
};

// all index vectors with 0 <= v[i] < base[i]
template <class F> void product(const std::vector<int> &base, F f)
{
	std::vector<int> v(base.size(), 0);
	for (int b : base) if (b <= 0) return;
	for (;;) {
		f((const std::vector<int> &)v);
		size_t i = 0;
		for (; i < v.size(); ++i) {
			if (++v[i] < base[i]) break;
			v[i] = 0;
		}
		if (i == v.size()) return;
	}
}

// ---------------------------------------------------------------- main

inline int main_(int argc, char **argv)
{
	if (argc >= 2 && !strcmp(argv[1], "--list")) {
		for (auto &s : scenarios()) puts(s.name.c_str());
		return 0;
	}
	if (argc < 3 || strcmp(argv[1], "--run")) {
		fprintf(stderr, "usage: %s --list | --run SCENARIO [OUT]\n", argv[0]);
		return 3;
	}
	if (argc > 3) out_path = argv[3];
	static char alt[1 << 18];
	stack_t ss = {};
	ss.ss_sp = alt;
	ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa = {};
	sa.sa_handler = on_crash;
	sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
	for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
	struct sigaction st = {};
	st.sa_handler = on_tick;
	st.sa_flags = SA_ONSTACK | SA_RESTART;
	sigaction(SIGPROF, &st, nullptr);
	struct itimerval it = {{1, 0}, {1, 0}};
	setitimer(ITIMER_PROF, &it, nullptr);
	bool found = false;
	for (auto &s : scenarios())
		if (s.name == argv[2]) {
			found = true;
			cur_name = s.name;
			s.fn();
			describe = nullptr;
			write_out(nullptr);
			cleanup();
			break;
		}
	if (!found) { fprintf(stderr, "no scenario %s\n", argv[2]); return 3; }
	fflush(stdout);
	_exit(0);
}

} // namespace mc

void register_scenarios();
int main(int argc, char **argv)
{
	const char *t = getenv("VERIF_TIER");
	mc::tier = t && !strcmp(t, "thorough"); // bounds are picked while registering
	register_scenarios();
	return mc::main_(argc, argv);
}
