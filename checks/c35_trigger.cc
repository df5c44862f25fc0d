// C35: triggers, fixpoint over all reachable states and long sequences
#include "mc.hh"
#include "trigger.hh"

using mc::str;

template <class T>
void schmitt(const char *name, std::function<void(mc::Arena<DSP::SchmittTrigger<T>> &, int)> make, bool start, T low, T high, const std::vector<T> &alpha)
{
	typedef DSP::SchmittTrigger<T> F;
	mc::Bfs<F, bool> b;
	b.make = [=](mc::Arena<F> &a, int poison) -> F & { make(a, poison); return a.get(); };
	b.init = start;
	b.key = [](const bool &m) { return std::string(m ? "1" : "0"); };
	b.check = [](F &, const bool &) {};
	for (T x : alpha) b.ops.push_back({str("%s: in(%.9g)", name, (double)x), nullptr, [=](F &f, bool &m) {
		bool y = f(x);
		if (m ? x < low : x > high) m = !m;
		MC_CHECK(y == m, "thresholds %.9g and %.9g: input %.9g gives %d instead of %d", (double)low, (double)high, (double)x, y, m);
		mc::outcome(mc::mix(mc::bits((double)x), y));
	}});
	for (int poison : {0x00, 0x4B, 0xFF}) b.run(poison);
}
template <class T> std::vector<T> around(std::vector<T> c)
{
	std::vector<T> v;
	for (T x : c) {
		v.push_back(x);
		if constexpr (std::is_floating_point<T>::value) { v.push_back(std::nextafter(x, T(1000))); v.push_back(std::nextafter(x, T(-1000))); }
		else { v.push_back(x + 1); v.push_back(x - 1); }
	}
	return v;
}
template <class T>
void real()
{
	typedef DSP::SchmittTrigger<T> F;
	typedef mc::Arena<F> A;
	const T third = T(1) / T(3);
	std::vector<T> common = {T(-100), T(-1), T(0.1), T(1), T(100)};
	auto alpha = [&](T lo, T hi) { std::vector<T> v = around<T>({lo, hi, T(0.25), -lo, -hi}); v.insert(v.end(), common.begin(), common.end()); v.push_back(0); return v; };
	schmitt<T>("default", [](A &a, int p) { a.make(p); }, false, -third, third, alpha(-third, third));
	for (T t : {T(0.5), T(0), T(7)}) {
		schmitt<T>("one threshold", [=](A &a, int p) { a.make(p, t); }, false, -t, t, alpha(-t, t));
		for (int s = 0; s < 2; ++s) schmitt<T>("one threshold with state", [=](A &a, int p) { a.make(p, t, bool(s)); }, s, -t, t, alpha(-t, t));
	}
	for (auto p : std::vector<std::pair<T, T>>{{T(-0.5), T(0.75)}, {T(0.25), T(0.5)}, {T(-3), T(-1)}, {T(2), T(2)}}) {
		const T lo = p.first, hi = p.second;
		schmitt<T>("two thresholds", [=](A &a, int q) { a.make(q, lo, hi); }, false, lo, hi, alpha(lo, hi));
		for (int s = 0; s < 2; ++s) schmitt<T>("two thresholds with state", [=](A &a, int q) { a.make(q, lo, hi, bool(s)); }, s, lo, hi, alpha(lo, hi));
	}
}
static void integer()
{
	typedef DSP::SchmittTrigger<int> F;
	typedef mc::Arena<F> A;
	for (int t = 0; t < 6; ++t) {
		std::vector<int> alpha;
		for (int x = -8; x <= 8; ++x) alpha.push_back(x);
		schmitt<int>("one threshold", [=](A &a, int p) { a.make(p, t); }, false, -t, t, alpha);
		for (int lo = -t; lo <= t; ++lo) for (int s = 0; s < 2; ++s) schmitt<int>("two thresholds", [=](A &a, int p) { a.make(p, lo, t, bool(s)); }, s, lo, t, alpha);
	}
}
// thresholds over the whole range of a type, where differences do not fit
template <class T>
void extremes()
{
	typedef DSP::SchmittTrigger<T> F;
	typedef mc::Arena<F> A;
	const T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
	std::vector<T> v;
	if (std::is_floating_point<T>::value) v = {lo, T(-1e30), T(-1e-30), T(0), T(1e-30), T(2e-30), T(1e30), hi};
	else v = {lo, T(lo + 1), T(lo / 2), T(0), T(1), T(10), T(20), T(hi / 2), T(hi - 1), hi};
	for (T a : v) for (T b : v) {
		if (b < a) continue;
		schmitt<T>("two thresholds", [=](A &m, int q) { m.make(q, a, b); }, false, a, b, v);
		for (int s = 0; s < 2; ++s) schmitt<T>("two thresholds with state", [=](A &m, int q) { m.make(q, a, b, bool(s)); }, s, a, b, v);
	}
}
template <class F>
void edge(bool rising)
{
	for (int st = 0; st < 3; ++st) {
		mc::Bfs<F, bool> b;
		b.make = [=](mc::Arena<F> &a, int poison) -> F & { if (st == 2) a.make(poison); else a.make(poison, bool(st)); return a.get(); };
		b.init = st == 1;
		b.key = [](const bool &m) { return std::string(m ? "1" : "0"); };
		b.check = [](F &, const bool &) {};
		for (int x = 0; x < 2; ++x) b.ops.push_back({str("in(%d)", x), nullptr, [=](F &f, bool &m) {
			bool y = f(bool(x)), want = rising ? !m && x : m && !x;
			MC_CHECK(y == want, "%d after %d gives %d", x, m, y);
			mc::outcome(m * 4 + x * 2 + y);
			m = x;
		}});
		for (int poison : {0x00, 0x4B, 0xFF}) b.run(poison);
	}
}
// hidden counters would show in long sequences: all of them up to a length
template <class F, class X>
void paths(int depth, const std::vector<X> &alpha, const std::function<bool(bool &, X)> &model)
{
	static mc::Dfs<F, bool> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	for (X x : alpha) dfs.ops.push_back({str("in(%g)", (double)x), [=](F &f, bool &m) { bool was = m, want = model(m, x), y = f(x); MC_CHECK(y == want, "input %g gives %d", (double)x, y); mc::outcome(mc::mix(was, mc::bits((double)x))); }});
	dfs.run(depth, false);
}

void register_scenarios()
{
	using mc::scenario;
	scenario("Schmitt float", real<float>);
	scenario("Schmitt double", real<double>);
	scenario("Schmitt int", integer);
	scenario("Schmitt extremes", []() { extremes<float>(); extremes<double>(); extremes<int>(); });
	scenario("Schmitt unsigned", []() { extremes<unsigned>(); extremes<unsigned char>(); }); // exotic
	scenario("Schmitt short", []() { extremes<short>(); extremes<long long>(); }); // exotic
	scenario("rising edge", []() { edge<DSP::RisingEdgeTrigger>(true); });
	scenario("falling edge", []() { edge<DSP::FallingEdgeTrigger>(false); });
	scenario("Schmitt sequences", []() { paths<DSP::SchmittTrigger<float>, float>(mc::pick(6, 9, 10), {-1, -0.25f, 0, 0.25f, 1}, [](bool &m, float x) { if (m ? x < -1 / 3.f : x > 1 / 3.f) m = !m; return m; }); });
	scenario("rising sequences", []() { paths<DSP::RisingEdgeTrigger, bool>(mc::pick(10, 18, 20), {false, true}, [](bool &m, bool x) { bool y = !m && x; m = x; return y; }); });
	scenario("falling sequences", []() { paths<DSP::FallingEdgeTrigger, bool>(mc::pick(10, 18, 20), {false, true}, [](bool &m, bool x) { bool y = m && !x; m = x; return y; }); });
}
