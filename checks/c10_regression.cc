// C10: simple linear regression against the normal equations
#include "mc.hh"
#include "regression.hh"

using mc::str;
typedef mc::ld ld;
typedef std::vector<double> V;

static V X, Y;
static std::string what;
static double worst[4];

template <class T, class R>
void verify(R &r, const V &x, const V &y, const char *name)
{
	const int n = x.size();
	const double eps = mc::eps<T>();
	ld sx = 0, sy = 0, vx = 0, vy = 0, cxy = 0;
	double mx = 0, my = 0;
	for (int i = 0; i < n; ++i) { sx += x[i]; sy += y[i]; mx = max(mx, std::abs(x[i])); my = max(my, std::abs(y[i])); }
	sx /= n; sy /= n;
	for (int i = 0; i < n; ++i) { vx += (x[i] - sx) * (x[i] - sx); vy += (y[i] - sy) * (y[i] - sy); cxy += (x[i] - sx) * (y[i] - sy); }
	ld slope = cxy / vx, yint = sy - slope * sx;
	double dx = std::sqrt((double)vx / n), dy = std::sqrt((double)vy / n);
	double K = 4 + n / 4.;
	double ts = K * eps * (my + dy + mx / dx * dy) / dx;
	double ti = K * eps * my + ts * mx;
	auto track = [&](int i, double got, double want, double tol) { if (tol > 0) worst[i] = max(worst[i], std::abs(got - want) / tol); };
	track(0, r.slope(), slope, ts);
	track(1, r.yint(), yint, ti);
	MC_CHECK(mc::near(r.slope(), slope, ts), "%s slope %.9g, expected %.9g, tolerance %g", name, (double)r.slope(), (double)slope, ts);
	MC_CHECK(mc::near(r.yint(), yint, ti), "%s y-intercept %.9g, expected %.9g, tolerance %g", name, (double)r.yint(), (double)yint, ti);
	for (double p : {-3.0, 0.0, 0.5, 11.0})
		MC_CHECK(mc::near(r(T(p)), (double)r.yint() + (double)r.slope() * p, 4 * eps * (std::abs((double)r.yint()) + std::abs((double)r.slope() * p))), "%s prediction at %g", name, p);
	double as = std::abs((double)slope);
	if (as > 20 * ts) {
		ld xint = sx - sy / slope;
		double tx = 2 * (K * eps * (mx + my / as) + ts * my / (as * as));
		track(2, r.xint(), xint, tx);
		MC_CHECK(mc::near(r.xint(), xint, tx), "%s x-intercept %.9g, expected %.9g, tolerance %g", name, (double)r.xint(), (double)xint, tx);
	}
	mc::step();
	mc::outcome(mc::mix(mc::bits((double)r.slope()), mc::bits((double)r.yint())));
}

static void trace() { mc::describe = []() { std::string s = what + " points:"; for (size_t i = 0; i < X.size() && i < 150; ++i) s += str(" (%g,%g)", X[i], Y[i]); return s; }; }

template <class T>
void general(const V &x, const V &y)
{
	std::vector<T> a(x.begin(), x.end()), b(y.begin(), y.end());
	X.assign(a.begin(), a.end());
	Y.assign(b.begin(), b.end());
	static mc::Arena<DSP::SimpleLinearRegression<T>> ar;
	auto &r = ar.make(0x4B, (const T *)a.data(), (const T *)b.data(), (int)a.size());
	verify<T>(r, X, Y, "general");
	++mc::res.evals;
	++mc::res.traces;
}
template <class T>
void uniform(double x0, double dx, const V &y)
{
	std::vector<T> b(y.begin(), y.end());
	T tx0(x0), tdx(dx);
	X.resize(y.size());
	Y.assign(b.begin(), b.end());
	for (size_t i = 0; i < y.size(); ++i) X[i] = (double)tx0 + (double)tdx * i;
	static mc::Arena<DSP::SimpleLinearRegression<T>> ar;
	auto &r = ar.make(0x5A, (const T *)b.data(), (int)b.size(), tx0, tdx);
	verify<T>(r, X, Y, "equidistant");
	if (x0 == 0 && dx == 1) {
		auto &q = ar.make(0xFF, (const T *)b.data(), (int)b.size());
		verify<T>(q, X, Y, "equidistant with defaults");
	} else if (dx == 1) {
		auto &q = ar.make(0xFF, (const T *)b.data(), (int)b.size(), tx0);
		verify<T>(q, X, Y, "equidistant with default step");
	}
	++mc::res.evals;
	++mc::res.traces;
}

template <class T>
void lattice(int n, V xs, V ys)
{
	trace();
	what = "lattice";
	V x(n), y(n);
	mc::product(std::vector<int>(n, xs.size() * ys.size()), [&](const std::vector<int> &v) {
		bool d = false;
		for (int i = 0; i < n; ++i) { x[i] = xs[v[i] % xs.size()]; y[i] = ys[v[i] / xs.size()]; d |= x[i] != x[0]; }
		if (d) general<T>(x, y);
	});
	mc::note(str("%s: largest deviation over tolerance %.2f slope, %.2f y-intercept, %.2f x-intercept", mc::cur_name.c_str(), worst[0], worst[1], worst[2]));
	mc::describe = nullptr;
}
template <class T>
void uniforms(int n, V ys)
{
	trace();
	what = "equidistant";
	for (double x0 : {0., 1., -7., 100., 0.3}) for (double dx : {1., -1., 0.5, -3., 0.01, 40.}) {
		V y(n);
		mc::product(std::vector<int>(n, ys.size()), [&](const std::vector<int> &v) {
			for (int i = 0; i < n; ++i) y[i] = ys[v[i]];
			uniform<T>(x0, dx, y);
			V x(n);
			for (int i = 0; i < n; ++i) x[i] = x0 + dx * i;
			general<T>(x, y);
		});
	}
	mc::note(str("%s: largest deviation over tolerance %.2f slope, %.2f y-intercept, %.2f x-intercept", mc::cur_name.c_str(), worst[0], worst[1], worst[2]));
	mc::describe = nullptr;
}
// every length: impulses at every position, lines, parabolas
template <class T>
void lengths(int lo, int hi)
{
	trace();
	what = "lengths";
	for (int n = lo; n <= hi; ++n) for (double x0 : {0., -20.}) for (double dx : {1., -0.25}) {
		V y(n), x(n);
		for (int i = 0; i < n; ++i) x[i] = x0 + dx * i;
		for (int shape = 0; shape < 4; ++shape) {
			for (int i = 0; i < n; ++i) y[i] = shape == 0 ? 2 * x[i] - 5 : shape == 1 ? x[i] * x[i] : shape == 2 ? i % 3 : -0.1 * i + 9;
			uniform<T>(x0, dx, y);
			general<T>(x, y);
		}
		for (int i = 0; i < n; ++i) {
			y.assign(n, 0);
			y[i] = 1;
			uniform<T>(x0, dx, y);
			general<T>(x, y);
		}
	}
	mc::note(str("%s: largest deviation over tolerance %.2f slope, %.2f y-intercept, %.2f x-intercept", mc::cur_name.c_str(), worst[0], worst[1], worst[2]));
	mc::describe = nullptr;
}
// long sets: four shapes
template <class T>
void longer()
{
	trace();
	what = "long sets";
	for (int n : {255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 70000, 200000}) for (double x0 : {0., -20.}) for (double dx : {1., -0.25}) {
		V y(n), x(n);
		for (int i = 0; i < n; ++i) x[i] = x0 + dx * i;
		for (int shape = 0; shape < 4; ++shape) {
			for (int i = 0; i < n; ++i) y[i] = shape == 0 ? 2 * x[i] - 5 : shape == 1 ? x[i] * x[i] / n : shape == 2 ? i % 3 : -0.1 * i + 9;
			uniform<T>(x0, dx, y);
			general<T>(x, y);
		}
	}
	mc::note(str("%s: largest deviation over tolerance %.2f slope, %.2f y-intercept, %.2f x-intercept", mc::cur_name.c_str(), worst[0], worst[1], worst[2]));
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
#define T_(T) \
	scenario("lattice " #T " 2", []() { lattice<T>(2, {-3, -1, 0, 2, 5, 100}, {-3, 0, 1, 7, 1000, 0.125}); }); \
	scenario("lattice " #T " 3", []() { lattice<T>(3, {-3, 0, 2, 5}, {-3, 0, 1, 7}); }); \
	scenario("lattice " #T " 4", []() { lattice<T>(4, {-3, 0, 2, 5}, {-3, 0, 7}); }); \
	scenario("levels " #T, []() { for (double a : {1. / (1 << 30), 1., double(1 << 30)}) for (double b : {1. / (1 << 30), double(1 << 30)}) lattice<T>(3, {-3 * a, 0, 2 * a, 5 * a}, {-3 * b, 0, 1 * b, 7 * b}); }); \
	scenario("lattice " #T " 5", []() { lattice<T>(5, {-3, 2, 5}, {0, 7}); if (!mc::san) lattice<T>(5, {0, 1}, {-4, 0, 7}); }); \
	scenario("lattice " #T " 6", []() { lattice<T>(6, {-3, 2}, {-1, 7}); if (!mc::san) lattice<T>(6, {1, 2, 4}, {-1, 7}); }); \
	scenario("default " #T, []() { DSP::SimpleLinearRegression<T> r; MC_CHECK(r.slope() == 0 && r.yint() == 0 && r.xint() == 0 && r(T(5)) == 0, "default constructed"); mc::step(); ++mc::res.evals; }); \
	scenario("equidistant " #T " 2-4", []() { for (int n = 2; n <= 4; ++n) uniforms<T>(n, {-3, 0, 1, 7}); }); \
	scenario("equidistant " #T " 5", []() { uniforms<T>(5, {-3, 0, 7}); }); \
	scenario("equidistant " #T " 6", []() { uniforms<T>(6, {-3, 7}); if (!mc::san) uniforms<T>(6, {0, 1, 2}); }); \
	scenario("long sets " #T, longer<T>); \
	scenario("lengths " #T, []() { lengths<T>(2, mc::pick(40, 140, 300)); });
	T_(float) T_(double)
}
