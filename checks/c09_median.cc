// C09: Theil-Sen and repeated median estimators against brute force
#include "mc.hh"
#include "theil_sen.hh"
#include "repeated_median.hh"

using mc::str;
typedef mc::ld ld;
typedef std::vector<double> V;

static V X, Y; // the points under test, for the trace
static std::string what;

static ld upper_median(std::vector<ld> v)
{
	std::sort(v.begin(), v.end());
	return v[v.size() / 2];
}

struct Fit { ld slope, yint, yint_h; };

static Fit theil_sen(const V &x, const V &y)
{
	std::vector<ld> s;
	for (size_t i = 0; i < x.size(); ++i) for (size_t j = i + 1; j < x.size(); ++j)
		if (x[i] != x[j]) s.push_back(((ld)y[j] - y[i]) / ((ld)x[j] - x[i]));
	Fit f;
	f.slope = upper_median(s);
	s.clear();
	for (size_t i = 0; i < x.size(); ++i) s.push_back(y[i] - f.slope * x[i]);
	f.yint = f.yint_h = upper_median(s);
	return f;
}
static Fit repeated(const V &x, const V &y)
{
	std::vector<ld> outer, outer_i;
	for (size_t i = 0; i < x.size(); ++i) {
		std::vector<ld> s, t;
		for (size_t j = 0; j < x.size(); ++j)
			if (x[i] != x[j]) {
				s.push_back(((ld)y[j] - y[i]) / ((ld)x[j] - x[i]));
				t.push_back(((ld)x[j] * y[i] - (ld)x[i] * y[j]) / ((ld)x[j] - x[i]));
			}
		outer.push_back(upper_median(s));
		outer_i.push_back(upper_median(t));
	}
	Fit f;
	f.slope = upper_median(outer);
	f.yint_h = upper_median(outer_i);
	outer.clear();
	for (size_t i = 0; i < x.size(); ++i) outer.push_back(y[i] - f.slope * x[i]);
	f.yint = upper_median(outer);
	return f;
}

template <class T, class E>
void verify(E &e, const V &x, const V &y, ld slope, ld yint, const char *name)
{
	// a median moves no more than its arguments do, so the tolerance is that of a single slope or residual
	double ms = 0, mx = 0, my = 0, mi = 0;
	for (size_t i = 0; i < x.size(); ++i) {
		mx = max(mx, std::abs(x[i]));
		my = max(my, std::abs(y[i]));
		for (size_t j = 0; j < x.size(); ++j) if (x[i] != x[j]) {
			ms = max(ms, (std::abs(y[i]) + std::abs(y[j])) / std::abs(x[i] - x[j]));
			mi = max(mi, (std::abs(y[i] * x[j]) + std::abs(y[j] * x[i])) / std::abs(x[i] - x[j]));
		}
	}
	const double eps = mc::eps<T>();
	double ts = 8 * eps * ms, ti = 8 * eps * (mi + my + ms * mx);
	MC_CHECK(mc::near(e.slope(), slope, ts), "%s slope %.9g, expected %.9g", name, (double)e.slope(), (double)slope);
	MC_CHECK(mc::near(e.yint(), yint, ti), "%s y-intercept %.9g, expected %.9g", name, (double)e.yint(), (double)yint);
	for (double p : {-2.0, 0.0, 0.5, 7.0})
		MC_CHECK(mc::near(e(T(p)), (double)e.yint() + (double)e.slope() * p, 4 * eps * (std::abs((double)e.yint()) + std::abs((double)e.slope() * p))), "%s prediction at %g", name, p);
	if (e.slope() != 0) {
		double xi = -(double)e.yint() / (double)e.slope();
		if (std::abs(xi) < 1e30 && std::abs(xi) > 1e-30)
			MC_CHECK(mc::near(e.xint(), xi, 4 * eps * std::abs(xi)), "%s x-intercept %.9g, expected %.9g", name, (double)e.xint(), xi);
	}
}

// level lines do not cross zero anywhere; the crossing of an earlier line is not reported for them
template <class T, class E>
void level(E &e, mc::Arena<E> &other, const std::vector<T> &x, const std::vector<T> &y, const char *name)
{
	if (e.slope() != 0) return;
	E &f = other.make(0x4B);
	f.compute(x.data(), y.data(), x.size());
	if (f.slope() != 0) return;
	const T a = e.xint(), b = f.xint();
	MC_CHECK(mc::finite_bits(a) == mc::finite_bits(b) && (!mc::finite_bits(a) || std::abs(a - b) <= 4 * mc::eps<T>() * std::abs(b)), "%s x-intercept %.9g of a level line, %.9g of an unused object", name, (double)a, (double)b);
}

template <class T, int SIZE>
struct Rig
{
	mc::Arena<DSP::TheilSenEstimator<T, SIZE>> ts;
	mc::Arena<DSP::RepeatedMedianEstimator<T, SIZE>> r1;
	mc::Arena<DSP::RepeatedMedianEstimator2<T, SIZE>> r2;
	mc::Arena<DSP::TheilSenEstimator<T, SIZE>> tsf;
	mc::Arena<DSP::RepeatedMedianEstimator<T, SIZE>> r1f;
	mc::Arena<DSP::RepeatedMedianEstimator2<T, SIZE>> r2f;
	void fresh() { ts.make(0x4B); r1.make(0x4B); r2.make(0x4B); }
	void run(const V &x, const V &y)
	{
		X = x; Y = y;
		const int n = x.size();
		std::vector<T> a(x.begin(), x.end()), b(y.begin(), y.end());
		V xx(a.begin(), a.end()), yy(b.begin(), b.end());
		std::vector<T> a0(a), b0(b);
		if (n <= SIZE) {
			ts.get().compute(a.data(), b.data(), n);
			Fit f = theil_sen(xx, yy);
			verify<T>(ts.get(), xx, yy, f.slope, f.yint, "Theil-Sen");
		} else {
			// which pairs are used is left open, but the slope is one of them
			ts.get().compute(a.data(), b.data(), n);
			double lo = 1e300, hi = -1e300, slope = ts.get().slope();
			for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (xx[i] != xx[j]) {
				double s = (yy[j] - yy[i]) / (xx[j] - xx[i]);
				lo = min(lo, s); hi = max(hi, s);
			}
			const double tol = 8 * mc::eps<T>() * max(std::abs(lo), std::abs(hi));
			MC_CHECK(mc::finite_bits(slope) && slope >= lo - tol && slope <= hi + tol, "Theil-Sen slope %.9g of more points than it holds, outside of %.9g to %.9g", slope, lo, hi);
		}
		r1.get().compute(a.data(), b.data(), n);
		r2.get().compute(a.data(), b.data(), n);
		int m = min(n, SIZE);
		xx.resize(m); yy.resize(m);
		Fit f = repeated(xx, yy);
		verify<T>(r1.get(), xx, yy, f.slope, f.yint_h, "repeated median");
		verify<T>(r2.get(), xx, yy, f.slope, f.yint, "repeated median 2");
		MC_CHECK(a == a0 && b == b0, "the input was modified");
		level<T>(ts.get(), tsf, a, b, "Theil-Sen");
		level<T>(r1.get(), r1f, a, b, "repeated median");
		level<T>(r2.get(), r2f, a, b, "repeated median 2");
		mc::step(); mc::step(); mc::step();
		++mc::res.states;
		++mc::res.traces;
		++mc::res.evals;
		mc::outcome(mc::mix(mc::bits((double)r1.get().slope()), mc::mix(mc::bits((double)r1.get().yint()), mc::bits((double)r2.get().yint()))));
	}
};

static void trace()
{
	mc::describe = []() { std::string s = what + " points:"; for (size_t i = 0; i < X.size() && i < 120; ++i) s += str(" (%g,%g)", X[i], Y[i]); return s; };
}
static bool distinct(const V &x) { for (double v : x) if (v != x[0]) return true; return false; }

// all point sets of n points over small sets of coordinates
template <class T, int SIZE>
void lattice(int n, V xs, V ys, bool reuse)
{
	trace();
	what = str("size %d", SIZE);
	static Rig<T, SIZE> rig;
	rig.fresh();
	const int k = xs.size() * ys.size();
	V x(n), y(n);
	mc::product(std::vector<int>(n, k), [&](const std::vector<int> &v) {
		for (int i = 0; i < n; ++i) { x[i] = xs[v[i] % xs.size()]; y[i] = ys[v[i] / xs.size()]; }
		if (!distinct(V(x.begin(), x.begin() + min(n, SIZE)))) return;
		if (!reuse) rig.fresh();
		rig.run(x, y);
	});
	mc::describe = nullptr;
}
// fixed x in several orders, all y vectors
template <class T, int SIZE>
void fixed_x(int n, V ys)
{
	trace();
	what = str("size %d", SIZE);
	static Rig<T, SIZE> rig;
	rig.fresh();
	for (int mode = 0; mode < 4; ++mode) {
		V x(n), y(n);
		for (int i = 0; i < n; ++i) x[i] = mode == 0 ? i : mode == 1 ? n - i : mode == 2 ? (i * 5 % n) - 0.5 : i / 2;
		if (!distinct(x)) continue;
		mc::product(std::vector<int>(n, ys.size()), [&](const std::vector<int> &v) {
			for (int i = 0; i < n; ++i) y[i] = ys[v[i]];
			rig.run(x, y);
		});
	}
	mc::describe = nullptr;
}
// every subset of outliers below the breakdown point, several kinds of outliers: the line comes back exactly
template <class T, int SIZE>
void outliers(int n)
{
	trace();
	static Rig<T, SIZE> rig;
	const double slopes[] = {2, -0.5, 0}, ints[] = {-3, 0, 10};
	for (int li = 0; li < 3; ++li) for (int kind = 0; kind < 5; ++kind) for (int mask = 0; mask < 1 << n; ++mask) {
		int m = __builtin_popcount(mask);
		int good = (n - m) * (n - m - 1) / 2, total = n * (n - 1) / 2;
		bool ts = good > total / 2 && n - m > n / 2 && total - good <= total / 2, rm = n - m - 1 > (n - 1) / 2 && n - m > n / 2;
		if (!ts && !rm) continue;
		V x(n), y(n);
		int c = 0;
		for (int i = 0; i < n; ++i) {
			x[i] = i - 2;
			y[i] = slopes[li] * x[i] + ints[li];
			if (mask >> i & 1) {
				++c;
				switch (kind) {
				case 0: y[i] += 1000; break;
				case 1: y[i] -= 1000; break;
				case 2: y[i] += c & 1 ? 1e6 : -1e6; break;
				case 3: y[i] = 7 * x[i] + 100; break;
				case 4: y[i] = -100 * x[i]; break;
				}
			}
		}
		what = str("size %d line %g*x+%g outlier mask %x kind %d", SIZE, slopes[li], ints[li], mask, kind);
		X = x; Y = y;
		std::vector<T> a(x.begin(), x.end()), b(y.begin(), y.end());
		auto exact = [&](auto &e, const char *name) {
			e.compute(a.data(), b.data(), n);
			MC_CHECK(mc::near(e.slope(), slopes[li], 4 * mc::eps<T>() * (1 + std::abs(slopes[li]))), "%s slope %.9g", name, (double)e.slope());
			MC_CHECK(mc::near(e.yint(), ints[li], 64 * mc::eps<T>() * (1 + std::abs(ints[li]))), "%s y-intercept %.9g", name, (double)e.yint());
			mc::step();
		};
		if (ts) exact(rig.ts.make(0x5A), "Theil-Sen");
		if (rm) { exact(rig.r1.make(0x5A), "repeated median"); exact(rig.r2.make(0x5A), "repeated median 2"); }
		++mc::res.states;
		++mc::res.traces;
		mc::outcome(mc::mix(mask, kind));
	}
	mc::describe = nullptr;
}
// larger sets: structured data, one or two deviations, more points than the repeated median holds
template <class T, int SIZE>
void larger()
{
	trace();
	what = str("size %d", SIZE);
	static Rig<T, SIZE> rig;
	rig.fresh();
	for (int n : {SIZE, SIZE - 1, SIZE / 2 + 1, SIZE + 1, 2 * SIZE}) for (int shape = 0; shape < 8; ++shape) {
		if (n < 2) continue;
		V x(n), y(n);
		for (int i = 0; i < n; ++i) {
			x[i] = shape == 3 ? n - i : shape == 4 ? (i * 37 % 101) : shape == 5 ? i / 3 : i * 0.25;
			switch (shape) {
			case 0: y[i] = 3 * x[i] - 1; break;
			case 1: y[i] = x[i] * x[i]; break;
			case 2: y[i] = i % 5; break;
			case 3: y[i] = -x[i] + i % 3; break;
			case 4: y[i] = 0.5 * x[i] + (i % 4 ? 0 : 50); break;
			case 5: y[i] = i % 7 - i / 7; break;
			case 6: y[i] = 4; break;
			case 7: y[i] = i < n / 2 ? 0 : 10; break;
			}
		}
		rig.run(x, y);
		int step = max(1, n / (SIZE > 100 ? 2 : mc::pick(4, 16, 64)));
		for (int i = 0; i < n; i += step) for (double d : {-100., 100.}) {
			double keep = y[i];
			y[i] += d;
			rig.run(x, y);
			y[i] = keep;
		}
	}
	mc::describe = nullptr;
}

// many points, of which the first ones lie elsewhere
template <class T, int SIZE>
void many()
{
	trace();
	what = str("size %d", SIZE);
	static Rig<T, SIZE> rig;
	rig.fresh();
	for (int n : {SIZE, SIZE + 1}) for (int part : {0, 2, 3, 5}) {
		V x(n), y(n);
		for (int i = 0; i < n; ++i) {
			x[i] = i * 0.25;
			y[i] = part && i < n * part / 8 ? 1 : 2 * x[i] + i % 3;
		}
		rig.run(x, y);
	}
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
#define T_(T) \
	scenario("lattice " #T " 2 points", []() { lattice<T, 2>(2, {-1, 0, 2, 5}, {-3, 0, 1, 7}, false); lattice<T, 5>(2, {-1, 0, 2, 5}, {-3, 0, 1, 7}, true); }); \
	scenario("lattice " #T " 3 points", []() { lattice<T, 3>(3, {-1, 0, 2}, {-3, 0, 1, 7}, false); lattice<T, 4>(3, {-1, 0, 2}, {-3, 0, 1}, true); }); \
	scenario("lattice " #T " 4 points", []() { lattice<T, 4>(4, {-1, 0, 2}, {-3, 0, 1}, true); }); \
	scenario("levels " #T, []() { for (double a : {1. / (1 << 30), 1., double(1 << 30)}) for (double b : {1. / (1 << 30), double(1 << 30)}) { lattice<T, 4>(3, {-1 * a, 0, 2 * a}, {-3 * b, 0, 1 * b, 7 * b}, true); lattice<T, 5>(4, {-1 * a, 2 * a}, {-3 * b, 0, 1 * b}, true); } }); \
	scenario("initially " #T, []() { \
		static Rig<T, 5> rig; rig.fresh(); \
		auto zero = [](auto &e) { MC_CHECK(e.slope() == 0 && e.yint() == 0 && e.xint() == 0 && e(T(3)) == 0, "not zero before any points"); mc::step(); ++mc::res.states; }; \
		zero(rig.ts.get()); zero(rig.r1.get()); zero(rig.r2.get()); \
	}); \
	scenario("lattice " #T " 5 points", []() { lattice<T, 5>(5, {-1, 1, 2}, {0, 3}, true); if (!mc::san) lattice<T, 6>(5, {0, 2}, {-3, 0, 1}, true); }); \
	scenario("lattice " #T " 6 points", []() { lattice<T, 6>(6, {-1, 1}, {0, 3}, true); if (!mc::san) lattice<T, 6>(6, {0, 1, 3}, {2, 7}, true); }); \
	scenario("lattice " #T " more points than size", []() { lattice<T, 3>(5, {-1, 2}, {0, 3}, true); lattice<T, 4>(6, {-1, 2}, {0, 3}, true); lattice<T, 2>(3, {-1, 2, 4}, {0, 3}, true); }); \
	scenario("all y " #T, []() { fixed_x<T, 4>(4, {-2, 0, 1, 5}); fixed_x<T, 5>(5, {-2, 0, 1, 5}); fixed_x<T, 6>(6, {-2, 0, 5}); fixed_x<T, 8>(7, {-2, 0, 5}); if (!mc::san) fixed_x<T, 9>(9, {-2, 3}); if (mc::thorough()) fixed_x<T, 12>(12, {-2, 3}); }); \
	scenario("outliers " #T, []() { outliers<T, 3>(3); outliers<T, 5>(5); outliers<T, 8>(8); outliers<T, 10>(10); if (!mc::san) outliers<T, 11>(11); if (!mc::san) outliers<T, 13>(12); if (mc::thorough()) outliers<T, 16>(16); }); \
	scenario("larger " #T " a", []() { larger<T, 16>(); larger<T, 33>(); larger<T, 34>(); }); \
	scenario("larger " #T " b", []() { larger<T, 40>(); }); \
	scenario("larger " #T " d", []() { larger<T, 130>(); if (!mc::san) larger<T, 260>(); }); \
	if (!mc::san) scenario("many " #T, []() { many<T, 1100>(); many<T, 1600>(); }); \
	scenario("larger " #T " c", []() { larger<T, 64>(); larger<T, 67>(); });
	T_(float) T_(double)
}
