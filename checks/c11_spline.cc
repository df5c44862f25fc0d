// C11: splines against independent references
#include "mc.hh"
#include "complex.hh"
#include "spline.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<long double> C;
typedef std::vector<C> VC;

static VC cur;
static std::string what;
static double worst;

template <class T> C c(T v) { return C(v, 0); }
template <class T> C c(DSP::Complex<T> v) { return C(v.real(), v.imag()); }
template <class O> struct Mk { static const int cplx = 0; static O mk(C v) { return O((double)v.real()); } };
template <class R> struct Mk<DSP::Complex<R>> { static const int cplx = 1; static DSP::Complex<R> mk(C v) { return DSP::Complex<R>((R)v.real(), (R)v.imag()); } };
static double mag(C v) { return (double)(std::abs(v.real()) + std::abs(v.imag())); }

// natural spline by its second derivatives: full Gaussian elimination of the tridiagonal system
static VC second(const VC &y)
{
	const int n = y.size();
	std::vector<std::vector<ld>> a(n, std::vector<ld>(n, 0));
	VC m(n);
	a[0][0] = a[n - 1][n - 1] = 1;
	for (int i = 1; i < n - 1; ++i) {
		a[i][i - 1] = 1; a[i][i] = 4; a[i][i + 1] = 1;
		m[i] = (y[i - 1] - y[i] - y[i] + y[i + 1]) * (ld)6;
	}
	for (int p = 0; p < n; ++p) for (int r = p + 1; r < min(n, p + 2); ++r) {
		ld f = a[r][p] / a[p][p];
		for (int q = p; q < min(n, p + 3); ++q) a[r][q] -= f * a[p][q];
		m[r] -= m[p] * f;
	}
	for (int p = n - 1; p >= 0; --p) {
		for (int q = p + 1; q < min(n, p + 3); ++q) m[p] -= m[q] * a[p][q];
		m[p] /= a[p][p];
	}
	return m;
}
// segment k of the natural spline at local parameter t (unit spacing)
static C natural(const VC &y, const VC &m, int k, ld t)
{
	ld s = 1 - t;
	return m[k] * (s * s * s / 6) + m[k + 1] * (t * t * t / 6) + (y[k] - m[k] / (ld)6) * s + (y[k + 1] - m[k + 1] / (ld)6) * t;
}
// Hermite segment with tangents (with respect to x) on knots x
static C hermite(const std::vector<ld> &x, const VC &y, int k, ld at)
{
	const int n = x.size();
	auto slope = [&](int i) { return (y[i + 1] - y[i]) / (x[i + 1] - x[i]); };
	auto tangent = [&](int i) { return i == 0 ? slope(0) : i == n - 1 ? slope(n - 2) : (slope(i - 1) + slope(i)) / (ld)2; };
	ld h = x[k + 1] - x[k], t = (at - x[k]) / h;
	C p0 = y[k], p1 = y[k + 1], m0 = tangent(k) * h, m1 = tangent(k + 1) * h;
	// power basis
	return p0 + t * (m0 + t * ((p1 - p0) * (ld)3 - m0 * (ld)2 - m1 + t * ((p0 - p1) * (ld)2 + m0 + m1)));
}

static const double params[] = {0, 0.125, 0.25, 0.5, 0.75, 0.875};
static const double beyond[] = {-0.25, -0.5, -0.75, -1, -1.25, -2, -3.5};

template <class O, class I>
void compare(O got, C want, double tx, double ymax, double out, const char *name)
{
	C g = c(got);
	double tol = 24 * mc::eps<I>() * (1 + std::abs(tx) / 4) * ymax * (1 + out * out * out * 8);
	worst = max(worst, mag(g - want) / (tol > 0 ? tol : 1));
	MC_CHECK(mc::finite_bits((double)g.real()) && mc::finite_bits((double)g.imag()) && mag(g - want) <= tol,
		"%s at %.9g: (%.9g,%.9g) instead of (%.9g,%.9g), tolerance %g", name, tx, (double)g.real(), (double)g.imag(), (double)want.real(), (double)want.imag(), tol);
	mc::step();
	++mc::res.evals;
	mc::outcome(mc::mix(mc::bits((double)g.real()), mc::bits((double)g.imag())));
}

template <int K, class O, class I>
void natural_one(VC y, I x0, I dx, int stride, bool defaults)
{
	if (!Mk<O>::cplx) for (auto &v : y) v = C(v.real(), 0);
	cur = y;
	what = str("natural, %d knots, x0=%g dx=%g stride=%d", K, (double)x0, (double)dx, stride);
	std::vector<O> mem((K - 1) * stride + 1, Mk<O>::mk(C(1e9L, -1e9L)));
	double ymax = 1e-30;
	for (int i = 0; i < K; ++i) { mem[i * stride] = Mk<O>::mk(y[i]); ymax = max(ymax, mag(y[i])); }
	typedef DSP::UniformNaturalCubicSpline<K, O, I> S;
	static mc::Arena<S> ar;
	S &s = stride != 1 ? ar.make(0x4B, mem.data(), x0, dx, stride) : defaults ? ar.make(0x4B, mem.data()) : ar.make(0x4B, mem.data(), x0, dx);
	VC m = second(y);
	auto at = [&](double tx) { return I((double)x0 + (double)dx * tx); };
	for (int k = 0; k < K - 1; ++k) for (double t : params) compare<O, I>(s(at(k + t)), natural(y, m, k, t), k + t, ymax, 0, "natural spline");
	compare<O, I>(s(at(K - 1)), y[K - 1], K - 1, ymax, 0, "natural spline, last knot");
	for (double t : beyond) {
		compare<O, I>(s(at(t)), natural(y, m, 0, t), t, ymax, -t, "natural spline before the first knot");
		compare<O, I>(s(at(K - 1 - t)), natural(y, m, K - 2, 1 - t), K - 1 - t, ymax, -t, "natural spline after the last knot");
	}
	++mc::res.traces;
}

template <class O, class I>
void hermite_one(VC y, const std::vector<ld> &x, bool uniform, I x0, I dx, bool defaults)
{
	const int n = y.size();
	if (!Mk<O>::cplx) for (auto &v : y) v = C(v.real(), 0);
	cur = y;
	what = str("Hermite, %d knots, %s x0=%g dx=%g", n, uniform ? "uniform" : "general", (double)x[0], (double)(x[1] - x[0]));
	std::vector<O> mem(n);
	std::vector<I> knots(x.begin(), x.end());
	double ymax = 1e-30, ratio = 1;
	for (int i = 0; i < n; ++i) { mem[i] = Mk<O>::mk(y[i]); ymax = max(ymax, mag(y[i])); }
	for (int i = 1; i + 1 < n; ++i) { double q = std::abs((double)((x[i + 1] - x[i]) / (x[i] - x[i - 1]))); ratio = max(ratio, max(q, 1 / q)); }
	auto check = [&](double at, int k, double out, const char *name) {
		double tx = (at - (double)x[0]) / (double)(x[1] - x[0]);
		C want = hermite(x, y, k, at);
		if (uniform) compare<O, I>(defaults ? DSP::CubicHermiteSpline<O, I>::eval(mem.data(), I(at), n) : DSP::CubicHermiteSpline<O, I>::eval(mem.data(), I(at), n, x0, dx), want, tx, ymax, out, name);
		else compare<O, I>(DSP::CubicHermiteSpline<O, I>::eval(knots.data(), mem.data(), I(at), n), want, tx, ymax * ratio, out, name);
	};
	for (int k = 0; k < n - 1; ++k) for (double t : params) check((double)(x[k] + t * (x[k + 1] - x[k])), k, 0, "Hermite spline");
	check((double)x[n - 1], n - 2, 0, "Hermite spline, last knot");
	for (double t : beyond) {
		check((double)(x[0] + t * (x[1] - x[0])), 0, -t, "Hermite spline before the first knot");
		check((double)(x[n - 1] - t * (x[n - 1] - x[n - 2])), n - 2, -t, "Hermite spline after the last knot");
	}
	++mc::res.traces;
}

static void trace() { mc::describe = []() { std::string s = what + " values:"; for (auto &v : cur) s += str(" (%g,%g)", (double)v.real(), (double)v.imag()); return s; }; }
static void done() { mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst)); mc::describe = nullptr; }

static const double origins[] = {0, -3, 2.5, 64};
static const double steps[] = {1, 0.5, -1, 4, -0.25};

template <int K, class O, class I>
void natural_all(bool deep)
{
	trace();
	auto each = [&](const VC &y) {
		natural_one<K, O, I>(y, 0, 1, 1, true);
		for (double x0 : origins) for (double dx : steps) for (int st : {1, 2, 3}) if (st == 1 || x0 == 0) natural_one<K, O, I>(y, x0, dx, st, false);
	};
	if (deep) mc::product(std::vector<int>(K, 3), [&](const std::vector<int> &v) { VC y; for (int i : v) y.push_back(C(i - 1, (i * i) - 1)); each(y); });
	else {
		for (int i = 0; i < K; ++i) if (K < 200 || i < 2 || i >= K - 2 || i % 128 == 0) { VC y(K); y[i] = C(1, -2); each(y); }
		VC y(K);
		for (int i = 0; i < K; ++i) y[i] = C(i * 7 % 5 - 2, i * 3 % 7 - 3);
		each(y);
		for (int i = 0; i < K; ++i) y[i] = C(i & 1 ? 1 : -1, i);
		each(y);
		if (K < 10) for (int st : {100, 256, 32768, 70000}) natural_one<K, O, I>(y, 0, 1, st, false);
		for (int e : {-50, 40}) { VC z(y); for (C &v : z) v *= std::ldexp((ld)1, e); each(z); }
	}
	done();
}
template <class O, class I>
void hermite_all(int n, bool deep)
{
	trace();
	std::vector<std::vector<ld>> xs;
	{
		std::vector<ld> x(n);
		for (int i = 0; i < n; ++i) x[i] = i * i + i; xs.push_back(x);
		for (int i = 0; i < n; ++i) x[i] = i * 2 + (i & 1) - 5; xs.push_back(x);
		for (int i = 0; i < n; ++i) x[i] = i * 0.5L - 8; xs.push_back(x);
	}
	auto each = [&](const VC &y) {
		std::vector<ld> x(n);
		for (int i = 0; i < n; ++i) x[i] = i;
		hermite_one<O, I>(y, x, true, 0, 1, true);
		for (double x0 : origins) for (double dx : steps) {
			for (int i = 0; i < n; ++i) x[i] = x0 + dx * i;
			hermite_one<O, I>(y, x, true, x0, dx, false);
		}
		for (auto &v : xs) hermite_one<O, I>(y, v, false, 0, 0, false);
	};
	if (deep) mc::product(std::vector<int>(n, 3), [&](const std::vector<int> &v) { VC y; for (int i : v) y.push_back(C(i - 1, (i * i) - 1)); each(y); });
	else for (int i = 0; i < n; ++i) if (n < 200 || i < 2 || i >= n - 2 || i % 128 == 0) { VC y(n); y[i] = C(1, -2); each(y); for (int j = 0; j < n; ++j) y[j] = std::ldexp((ld)1, i == 1 ? -50 : i == 2 ? 40 : 0) * C((j * 7 + i) % 5 - 2, j * 3 % 7 - 3); each(y); }
	done();
}
// all spacings over {1, 2, 3} for the general Hermite spline
template <class O, class I>
void hermite_spacings(int n)
{
	trace();
	mc::product(std::vector<int>(n - 1, 3), [&](const std::vector<int> &v) {
		std::vector<ld> x(n, -2);
		for (int i = 1; i < n; ++i) x[i] = x[i - 1] + v[i - 1] + 1;
		for (int i = 0; i < n; ++i) { VC y(n); y[i] = C(1, -1); hermite_one<O, I>(y, x, false, 0, 0, false); }
		VC y(n);
		for (int i = 0; i < n; ++i) y[i] = C(i * 7 % 5 - 2, i);
		hermite_one<O, I>(y, x, false, 0, 0, false);
	});
	done();
}

template <class O, class I, int LO, int... J> void naturals(std::integer_sequence<int, J...>) { (natural_all<LO + J, O, I>(false), ...); }

void register_scenarios()
{
	using mc::scenario;
	typedef DSP::Complex<float> CF;
#define NAT(K, O, I) scenario("natural all values " #K " " #O, []() { natural_all<K, O, I>(true); });
	NAT(2, float, float) NAT(3, float, float) NAT(4, float, float) NAT(5, float, float) NAT(6, float, float)
	NAT(2, double, double) NAT(3, double, double) NAT(5, double, double)
	NAT(3, CF, float) NAT(4, CF, float) // exotic
	if (mc::thorough()) { NAT(7, float, float) NAT(8, double, double) }
	scenario("natural impulses 2-17 float", []() { naturals<float, float, 2>(std::make_integer_sequence<int, 16>()); });
	scenario("natural impulses 2-9 complex", []() { naturals<CF, float, 2>(std::make_integer_sequence<int, 8>()); }); // exotic
	scenario("natural impulses 31-34 double", []() { naturals<double, double, 31>(std::make_integer_sequence<int, 4>()); });
	scenario("natural impulses 64 double", []() { natural_all<64, double, double>(false); });
	scenario("natural impulses 100 float", []() { natural_all<100, float, float>(false); });
	scenario("natural impulses 257 float", []() { natural_all<257, float, float>(false); });
	if (!mc::san) scenario("natural impulses 600 double", []() { natural_all<600, double, double>(false); });
	scenario("hermite 257", []() { hermite_all<float, float>(257, false); });
	if (!mc::san) scenario("hermite 1000", []() { hermite_all<double, double>(1000, false); });
	for (int n = 3; n <= 7; ++n) {
		scenario(str("hermite all values %d float", n), [=]() { hermite_all<float, float>(n, !mc::san || n < 6); });
		scenario(str("hermite all values %d double", n), [=]() { hermite_all<double, double>(n, !mc::san || n < 6); });
		scenario(str("hermite all values %d complex", n), [=]() { hermite_all<CF, float>(n, n < 6); }); // exotic
		scenario(str("hermite all spacings %d float", n), [=]() { hermite_spacings<float, float>(n); });
		scenario(str("hermite all spacings %d double", n), [=]() { hermite_spacings<double, double>(n); });
	}
	scenario("hermite longer", []() { for (int n = 8; n <= mc::pick(20, 40, 100); ++n) hermite_all<float, float>(n, false); });
}
