// C38: Kahan summation under every build's optimizations
#include "mc.hh"
#include <list>
#include "kahan.hh"

using mc::str;
typedef mc::ld ld;
typedef __int128 I;
static double worst;

// exact sums in units of 2^-80
static I units(ld x) { return (I)(x * 0x1p80L); }
struct Ref { I sum = 0, mag = 0; int count = 0; };

template <class T>
void bound(T got, const Ref &r)
{
	ld d = (ld)(units((ld)got) - r.sum), tol = 2 * (ld)mc::eps<T>() * (ld)r.mag;
	if (d < 0) d = -d;
	if (tol > 0) worst = max(worst, (double)(d / tol));
	MC_CHECK(mc::finite_bits(got) && d <= tol, "after %d terms the sum is %.17g, off by %.3g epsilon times the magnitudes", r.count, (double)got, (double)(d / tol * 2));
}
// the smallest further term that moves the sum shows the compensation, too
template <class T>
T threshold(const DSP::Kahan<T> &k, bool negative)
{
	typedef typename std::conditional<sizeof(T) == 4, uint32_t, mc::u64>::type U;
	auto value = [](U u) { T x; memcpy(&x, &u, sizeof(x)); return x; };
	const T big = T(1e18), here = DSP::Kahan<T>(k)();
	U lo = 0, hi;
	memcpy(&hi, &big, sizeof(hi));
	while (hi - lo > 1) {
		U mid = lo + (hi - lo) / 2;
		DSP::Kahan<T> c(k);
		if (mc::bits(c(negative ? -value(mid) : value(mid))) != mc::bits(here)) hi = mid; else lo = mid;
	}
	return value(hi);
}
template <class T>
void sequences(int depth)
{
	typedef DSP::Kahan<T> F;
	static mc::Dfs<F, Ref> dfs;
	const int big = sizeof(T) == 4 ? 24 : 53;
	std::vector<T> alpha = {T(1), T(-1), T(ldexp(1.0, 1 - big)), T(ldexp(-0.75, 2 - big)), T(ldexp(1.0, sizeof(T) == 4 ? big : 30)), T(0), T(0.1), T(-7.3), T(ldexp(0.8125, 3 - big))};
	for (T x : alpha) for (int how = 0; how < 3; ++how) {
		if (how == 1 && x < 0) continue;
		if (how == 2 && !(x == T(0.1) || x == T(1))) continue;
		dfs.ops.push_back({str("%s(%.9g)", how == 0 ? "add" : how == 1 ? "same" : "copy then add", (double)x), [=](F &f, Ref &r) {
			r.sum += units((ld)x);
			r.mag += units(x < 0 ? -(ld)x : (ld)x);
			++r.count;
			T y;
			if (how == 0) {
				y = f(x);
			} else if (how == 1) {
				F before(f), twin(f);
				bool s = f.same(x);
				MC_CHECK(s == (before == f), "same() returned %d", s);
				y = f();
				if (s) for (bool negative : {false, true}) {
					T a = threshold<T>(before, negative), b = threshold<T>(f, negative);
					MC_CHECK(mc::bits(a) == mc::bits(b), "same() claims that nothing changed, but terms beyond %.17g instead of %.17g now move the sum", (double)b, (double)a);
				}
				MC_CHECK(s || memcmp(&before, &f, sizeof(f)), "same() claims a change, but nothing changed");
				T z = twin(x);
				MC_CHECK(mc::bits(y) == mc::bits(z) && twin == f, "same() and adding differ: %.17g and %.17g", (double)y, (double)z);
			} else {
				F twin(f);
				y = f(x);
				T z = twin(x), u = twin(x);
				(void)u;
				MC_CHECK(mc::bits(y) == mc::bits(z), "a copy continues with %.17g instead of %.17g", (double)z, (double)y);
				MC_CHECK(mc::bits(f()) == mc::bits(y), "adding to the copy changed the original to %.17g", (double)f());
			}
			MC_CHECK(mc::bits(f()) == mc::bits(y), "returned %.17g but holds %.17g", (double)y, (double)f());
			bound<T>(y, r);
			mc::outcome(mc::bits(y));
		}});
	}
	for (int st = 0; st < 3; ++st) {
		const T init = st == 0 ? T(0) : st == 1 ? T(1000) : T(-0.1);
		dfs.make = [=](mc::Arena<F> &a, int poison) { if (st == 0) a.make(poison); else a.make(poison, init); };
		Ref r;
		r.sum = units((ld)init);
		r.mag = r.sum < 0 ? -r.sum : r.sum;
		dfs.run(depth, r);
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// ranges equal one by one
template <class T>
void ranges(int length)
{
	const std::vector<T> alpha = {T(1), T(-0.1), T(sizeof(T) == 4 ? 1e7 : 1e15), T(0.3)};
	for (int n = 0; n <= length; ++n) mc::product(std::vector<int>(n, alpha.size()), [&](const std::vector<int> &ix) {
		std::vector<T> v;
		for (int i : ix) v.push_back(alpha[i]);
		std::list<T> l(v.begin(), v.end());
		for (T init : {T(0), T(5.7)}) {
			DSP::Kahan<T> k(init);
			for (T x : v) k(x);
			T a = DSP::kahan_sum((const T *)v.data(), (const T *)v.data() + n, init), b = DSP::kahan_sum(l.begin(), l.end(), init);
			MC_CHECK(mc::bits(a) == mc::bits(k()) && mc::bits(b) == mc::bits(k()), "sum of %d terms: %.17g and %.17g instead of %.17g", n, (double)a, (double)b, (double)k());
			mc::outcome(mc::bits(a));
			mc::step();
			++mc::res.states;
			++mc::res.traces;
		}
	});
}
// many terms
template <class T>
void longrun(int terms)
{
	struct Kind { const char *name; std::function<ld(int)> f; };
	int t = 0;
	const char *name = "";
	mc::describe = [&] { return str("%s, term %d", name, t); };
	for (const Kind &k : {Kind{"0.1", [](int) { return 0.1L; }}, Kind{"1/n", [](int n) { return 1 / (ld)(n + 1); }}, Kind{"alternating", [](int n) { return (n & 1 ? -1 : 1) / (ld)(n + 1); }}, Kind{"big first", [](int n) { return n ? 1e-3L : 4096.L; }}, Kind{"squares", [](int n) { return (n * 7919ll % 1000) * 1e-4L; }}}) {
		name = k.name;
		std::vector<T> all;
		DSP::Kahan<T> s;
		Ref r;
		for (t = 0; t < terms; ++t) {
			volatile T vx = T(k.f(t));
			const T x = vx;
			all.push_back(x);
			r.sum += units((ld)x);
			r.mag += units(x < 0 ? -(ld)x : (ld)x);
			++r.count;
			T y = s(x);
			bound<T>(y, r);
			mc::step();
			++mc::res.states;
			if (t % 1024 == 1) mc::outcome(mc::bits(y));
		}
		bound<T>(DSP::kahan_sum(all.begin(), all.end(), T(0)), r);
		++mc::res.traces;
		if (mc::want_sample()) mc::sample(str("%s: %d terms, sum %.17g", name, terms, (double)s()));
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	mc::describe = nullptr;
}
// the typical loop: add ever smaller terms until nothing changes
template <class T>
void until_same()
{
	for (double q : {0.5, 0.9, 0.1}) {
		DSP::Kahan<T> k(T(1));
		T x = T(1);
		int n = 0;
		for (; n < 100000; ++n) {
			x *= T(q);
			if (k.same(x)) break;
			mc::step();
			++mc::res.states;
		}
		MC_CHECK(n < 5000, "series did not settle");
		ld want = 1 / (1 - (ld)T(q));
		MC_CHECK(std::abs((ld)k() - want) <= 8 * (ld)mc::eps<T>() * want / (1 - (ld)q), "series of %g sums to %.17g", q, (double)k());
		++mc::res.traces;
		mc::outcome(mc::mix(n, mc::bits(k())));
	}
}

void register_scenarios()
{
	using mc::scenario;
	const int d = mc::pick(4, 5, 6);
	scenario("sequences float", [=]() { sequences<float>(d); });
	scenario("sequences double", [=]() { sequences<double>(d); });
	scenario("ranges float", []() { ranges<float>(mc::pick(5, 7, 9)); });
	scenario("ranges double", []() { ranges<double>(mc::pick(5, 7, 9)); });
	scenario("long run float", []() { longrun<float>(mc::pick(10000, 1000000, 10000000)); });
	scenario("long run double", []() { longrun<double>(mc::pick(10000, 1000000, 10000000)); });
	scenario("until same float", until_same<float>);
	scenario("until same double", until_same<double>);
}
