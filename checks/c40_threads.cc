// C40: two threads working on different objects, preempted at the memory accesses they both make
#include "actors.hh"
#include "sched.hh"
#include <sys/mman.h>
#include <sys/wait.h>

using namespace act;
using mc::str;
using mc::u64;
using sched::config;
using sched::Report;
const size_t SLOT = 1 << 16;
const int STEPS = 2; // calls of each thread
alignas(64) static unsigned char slots[2][SLOT];
static std::vector<Actor> actors;
static size_t who[2];
struct Shared { Report report; Log log[2]; bool finished; };
static Shared *shared;
static Shared *mapped() { return (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static void body(int role)
{
	const Actor &a = actors[who[role]];
	void *p = slots[role];
	Log &log = shared->log[role];
	a.make(p, role);
	for (int t = 0; t < STEPS; ++t) a.call(p, t, role, log);
	a.destroy(p);
}
enum End { FINE, HANGS, DIES };
// one execution in a process of its own: lazily initialized statics are untouched
static End execute(int &status, int seconds = 10)
{
	for (int again = 0;; ++again) {
		munmap(shared, sizeof *shared);
		shared = mapped();
		config.report = &shared->report;
		int pid = fork();
		if (!pid) {
			for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, SIG_DFL);
			mc::out_path = "/dev/null";
			mc::describe = nullptr;
			alarm(again ? 6 * seconds : seconds);
			memset(slots, 0x4B, sizeof slots);
			sched::run(body);
			shared->finished = true;
			_exit(0);
		}
		waitpid(pid, &status, 0);
		mc::step();
		++mc::res.traces;
		if (shared->finished) return FINE;
		if ((WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) || shared->report.deadlock) {
			if (again || shared->report.deadlock) return HANGS;
			continue; // perhaps the machine was busy
		}
		return DIES;
	}
}
static Log alone[2]; // of the current pair
static bool as_alone(int role, std::string &why)
{
	const Log &a = alone[role], &b = shared->log[role];
	if (a.n != b.n) { why = str("thread %c logs %d instead of %d values", "AB"[role], b.n, a.n); return false; }
	for (int i = 0; i < a.n; ++i) if (!mc::near(b.v[i], a.v[i], 1e-5 * (1 + std::abs(a.v[i])))) {
		why = str("value %d of thread %c is %.9g, alone it is %.9g", i, "AB"[role], b.v[i], a.v[i]);
		return false;
	}
	return true;
}
static bool doubtful; // schedules that could not be finished
static int run(int first, std::vector<int> preempt)
{
	config.first = first;
	config.preemptions = preempt.size();
	for (size_t i = 0; i < preempt.size(); ++i) config.preempt[i] = preempt[i];
	mc::describe = [=]() {
		std::string s = str("threads %s (A) and %s (B), %c starts", actors[who[0]].name, actors[who[1]].name, "AB"[first]);
		for (int p : preempt) s += str(", preemption at conflicting access %d", p);
		return s;
	};
	int status = 0;
	End e = execute(status);
	if (e == HANGS && preempt.size()) { doubtful = true; return shared->report.points; }
	MC_CHECK(e != HANGS, "does not terminate");
	MC_CHECK(e == FINE, "abnormal end, status %d", status);
	std::string why;
	MC_CHECK(as_alone(0, why) && as_alone(1, why), "%s", why.c_str());
	++mc::res.states;
	mc::outcome(mc::mix(mc::mix(who[0], who[1]), mc::mix(shared->report.switches, shared->report.points)));
	return shared->report.points;
}
// granules both threads use and one of them writes become scheduling points
static int conflicts()
{
	const Report &r = shared->report;
	int fresh = 0;
	std::unordered_map<u64, int> a;
	for (int i = 0; i < sched::TABLE; ++i) if (r.granule[0][i]) a[r.granule[0][i]] = r.access[0][i];
	for (int i = 0; i < sched::TABLE; ++i) if (r.granule[1][i]) {
		auto f = a.find(r.granule[1][i]);
		if (f != a.end() && ((f->second | r.access[1][i]) & 2)) fresh += sched::add_point(f->first);
	}
	if (r.full) doubtful = true;
	return fresh;
}
// positions 1 to n in an order that covers the range evenly when it is cut short
static std::vector<int> spread(int n)
{
	std::vector<int> v;
	int size = 1;
	while (size <= n) size *= 2;
	for (int i = 0; i < size; ++i) {
		int r = 0;
		for (int b = 1, c = size / 2; b < size; b *= 2, c /= 2) if (i & b) r |= c;
		if (r >= 1 && r <= n) v.push_back(r);
	}
	return v;
}
static void threads(size_t a)
{
	prepare();
	actors = all();
	shared = mapped();
	const auto begin = std::chrono::steady_clock::now();
	auto late = [&](int s) { return std::chrono::steady_clock::now() - begin > std::chrono::seconds(mc::thorough() ? 20 * s : s); };
	u64 independent = 0, dependent = 0, accesses = 0;
	bool capped = false;
	for (size_t b = 0; b < actors.size(); ++b) {
		who[0] = a;
		who[1] = b;
		memset(config.point, 0, sizeof config.point);
		config.points = config.preemptions = 0;
		for (int role = 0; role < 2; ++role) {
			config.first = role;
			config.alone = true;
			int status = 0;
			mc::describe = [=]() { return str("thread %s alone", actors[who[role]].name); };
			End e = execute(status);
			MC_CHECK(e == FINE, "%s, status %d", e == HANGS ? "does not terminate" : "abnormal end", status);
			alone[role] = shared->log[role];
			accesses += shared->report.used[role];
		}
		config.alone = false;
		for (int first = 0; first < 2; ++first) {
			run(first, {});
			conflicts();
		}
		if (!config.points) { ++independent; continue; } // all schedules are equivalent to the one executed
		++dependent;
		const u64 budget = mc::thorough() ? 30000 : 2000, start = mc::res.traces;
		auto over = [&]() { bool o = mc::res.traces - start > budget || late(40); capped |= o; return o; };
		for (int first = 0; first < 2; ++first) {
			std::vector<int> length;
			int n = run(first, {});
			for (int i : spread(n)) {
				if (over()) break;
				run(first, {i});
				conflicts();
			}
		}
		for (int first = 0; first < 2; ++first) {
			int n = run(first, {});
			for (int i : spread(n)) {
				if (over()) break;
				int m = run(first, {i});
				for (int j : spread(m)) if (j > i) {
					if (over()) break;
					run(first, {i, j});
				}
			}
		}
	}
	munmap(shared, sizeof *shared);
	if (dependent) { capped |= true; } // at most two preemptions
	if (capped || doubtful) mc::res.exhaustive = false;
	mc::note(str("%s: %llu partners without common written memory, %llu with%s%s", mc::cur_name.c_str(), independent, dependent, capped ? ", bounded" : "", doubtful ? ", some schedules unfinished" : ""));
	if (mc::want_sample()) mc::sample(str("%s as thread A with each of %zu partners as thread B, %llu memory words observed", actors[a].name, actors.size(), accesses));
	mc::describe = nullptr;
}

void register_scenarios()
{
	std::vector<Actor> list = all();
	for (size_t i = 0; i < list.size(); ++i) mc::scenario(std::string("threads ") + list[i].name, [=]() { threads(i); });
}
