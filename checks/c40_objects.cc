// C40: interleaved use of two objects, and copies taken at every point
#include "actors.hh"
#include <sys/mman.h>
#include <sys/wait.h>

using namespace act;
using mc::str;
const size_t SLOT = 1 << 16;
alignas(64) static unsigned char slots[3][SLOT];
struct Solo { Log log; int upto[CALLS + 1]; };
static Solo *solo; // [actor][salt]
static std::vector<Actor> actors;

static bool same(double a, double b)
{
	return mc::near(a, b, 1e-5 * (1 + std::abs(b)));
}
// what each user gets alone, every one in a fresh process
static void baseline()
{
	prepare();
	actors = all();
	solo = (Solo *)mmap(nullptr, sizeof(Solo) * 2 * actors.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (size_t i = 0; i < actors.size(); ++i) for (int salt = 0; salt < 2; ++salt) {
		if (actors[i].size > SLOT) { fprintf(stderr, "slot too small\n"); _exit(3); }
		int pid = fork();
		if (!pid) {
			for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, SIG_DFL);
			Solo &o = *new (&solo[2 * i + salt]) Solo;
			memset(slots, 0x4B, sizeof slots);
			actors[i].make(slots[0], salt);
			for (int t = 0; t < CALLS; ++t) {
				o.upto[t] = o.log.n;
				actors[i].call(slots[0], t, salt, o.log);
			}
			o.upto[CALLS] = o.log.n;
			actors[i].destroy(slots[0]);
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		MC_CHECK(WIFEXITED(st) && !WEXITSTATUS(st), "%s alone failed with status %d", actors[i].name, st);
	}
}
static Solo &alone(size_t i, int salt) { return solo[2 * i + salt]; }
// one call, compared with the same call of the lone user
static void call(size_t i, int slot, int t, int salt, const char *who)
{
	static Log log;
	log.n = 0;
	actors[i].call(slots[slot], t, salt, log);
	mc::step();
	const Solo &o = alone(i, salt);
	MC_CHECK(log.n == o.upto[t + 1] - o.upto[t], "%s: %s logs %d instead of %d values in call %d", who, actors[i].name, log.n, o.upto[t + 1] - o.upto[t], t);
	for (int k = 0; k < log.n; ++k) MC_CHECK(same(log.v[k], o.log.v[o.upto[t] + k]), "%s: value %d of call %d of %s is %.9g, alone it is %.9g", who, k, t, actors[i].name, log.v[k], o.log.v[o.upto[t] + k]);
}
// all merges of a events of the first and b of the second
template <class F> static void merges(int a, int b, F f)
{
	for (unsigned m = 0; m < 1u << (a + b); ++m) if (__builtin_popcount(m) == b) f(m);
}
static std::string show(unsigned m, int n)
{
	std::string s;
	for (int i = 0; i < n; ++i) s += m >> i & 1 ? 'B' : 'A';
	return s;
}
static void interleave(size_t a)
{
	baseline();
	for (size_t b = a; b < actors.size(); ++b) {
		const int n = 2 * (CALLS + 1);
		std::set<mc::u64> prefixes;
		merges(CALLS + 1, CALLS + 1, [&](unsigned m) {
			mc::describe = [&]() { return str("%s as A and %s as B, schedule %s", actors[a].name, actors[b].name, show(m, n).c_str()); };
			memset(slots[0], 0x4B, actors[a].size);
			memset(slots[1], 0x5A, actors[b].size);
			int done[2] = {0, 0};
			for (int i = 0; i < n; ++i) {
				const int w = m >> i & 1;
				const size_t x = w ? b : a;
				if (!done[w]) actors[x].make(slots[w], w);
				else call(x, w, done[w] - 1, w, "interleaved");
				++done[w];
				prefixes.insert((mc::u64)(m & ((2u << i) - 1)) << 8 | i);
			}
			actors[a].destroy(slots[0]);
			actors[b].destroy(slots[1]);
			++mc::res.traces;
		});
		mc::res.states += prefixes.size();
		mc::outcome(mc::mix(a, b));
		if (mc::want_sample() && b > a) mc::sample(str("all 252 merges of five events each of %s and %s", actors[a].name, actors[b].name));
	}
	mc::describe = nullptr;
}
// copying at every point: how 0 construct, 1 assign to a fresh object, 2 assign to a used one
static void copies(size_t a)
{
	baseline();
	const Actor &x = actors[a];
	for (int how = 0; how < 3; ++how) {
		if (how ? !x.assign : !x.copy) { mc::note(str("%s: not %s", x.name, how ? "assignable" : "copyable")); continue; }
		for (int salt = 0; salt < 2; ++salt) for (int k = 0; k <= CALLS; ++k) for (int other = 0; other < 2; ++other) for (int kill = 0; kill < 2; ++kill) {
			const int rest = CALLS - k;
			if (kill && other) continue;
			merges(kill ? 0 : rest, rest, [&](unsigned m) {
				const int n = (kill ? 0 : rest) + rest;
				mc::describe = [&]() {
					return str("%s with input %d: B is %s after %d calls, then %s%s%s", x.name, salt, how == 0 ? "copied from A" : how == 1 ? "a fresh object assigned A" : "a used object assigned A", k,
						kill ? "A is destroyed and overwritten, then " : "", show(m, n).c_str(), other ? ", B with other input" : "");
				};
				memset(slots[0], 0x4B, x.size);
				memset(slots[1], 0x5A, x.size);
				x.make(slots[0], salt);
				if (how) {
					x.make(slots[1], !salt);
					Log log;
					if (how == 2) for (int t = 0; t < 3; ++t) x.call(slots[1], t, !salt, log);
				}
				for (int t = 0; t < k; ++t) call(a, 0, t, salt, "before the copy");
				if (how) x.assign(slots[1], slots[0]); else x.copy(slots[1], slots[0]);
				mc::step();
				if (kill) {
					x.destroy(slots[0]);
					memset(slots[0], 0xFF, x.size);
				}
				int done[2] = {k, k};
				for (int i = 0; i < n; ++i) {
					const int w = m >> i & 1;
					if (w && other) {
						static Log log;
						log.n = 0;
						x.call(slots[1], CALLS + done[1], !salt, log);
						mc::step();
					} else call(a, w, done[w], salt, w ? "copy" : "original");
					++done[w];
					++mc::res.states;
				}
				if (!kill) x.destroy(slots[0]);
				x.destroy(slots[1]);
				++mc::res.traces;
				++mc::res.states;
			});
			mc::outcome(mc::mix(mc::mix(how * 2 + salt, k * 4 + other * 2 + kill), mc::bits(alone(a, salt).log.v[0])));
		}
	}
	if (mc::want_sample()) mc::sample(str("%s copied, assigned to a fresh and to a used object after 0 to 4 calls, all merges of the remaining calls", x.name));
	mc::describe = nullptr;
}

void register_scenarios()
{
	std::vector<Actor> list = all();
	for (size_t i = 0; i < list.size(); ++i) {
		mc::scenario(std::string("interleaved ") + list[i].name, [=]() { interleave(i); });
		if (!list[i].file) mc::scenario(std::string("copies ") + list[i].name, [=]() { copies(i); });
	}
}
