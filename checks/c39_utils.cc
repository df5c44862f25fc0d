// C39: everyday helpers over lattices of arguments
#include "mc.hh"
#include "complex.hh"
#include "utils.hh"

using mc::str;
typedef mc::ld ld;
static const ld PI = acosl(-1);
static double worst;

#define CALL __attribute__((noinline))
template <class T> CALL int do_signum(T v) { return DSP::signum(v); }
template <class T> CALL T do_clamp(T x, T a, T b) { return DSP::clamp(x, a, b); }
template <class AB, class X> CALL AB do_lerp(AB a, AB b, X x) { return DSP::lerp(a, b, x); }
template <class T> CALL T do_sinc(T x) { return DSP::sinc(x); }
template <class T> CALL T do_delta(T x) { return DSP::delta(x); }
template <class T> CALL T do_pdf(T x, T m, T s) { return DSP::normal_pdf(x, m, s); }

template <class T> std::vector<T> values()
{
	std::vector<T> v;
	if constexpr (std::is_floating_point<T>::value) {
		for (double m : {1.0, 1.25, 1.9990234375}) for (int e : {-126, -125, -60, -24, -23, -10, -3, -2, -1, 0, 1, 2, 3, 10, 23, 24, 31, 32, 63, 64, 100, 126}) for (int s : {1, -1}) v.push_back(T(s * ldexp(m, e)));
		for (int i = -20; i <= 20; ++i) v.push_back(T(i));
		v.push_back(T(0));
		v.push_back(-v.back());
	} else {
		typedef std::numeric_limits<T> L;
		for (int i = 0; i <= 20; ++i) { v.push_back(T(i)); v.push_back(T(L::max() - i)); v.push_back(T(L::min() + i)); v.push_back(T(L::max() / 2 + i)); if (L::is_signed) v.push_back(T(-i)); }
	}
	return v;
}
template <class T>
void signs()
{
	auto check = [](T x) {
		int want = x > T(0) ? 1 : x < T(0) ? -1 : 0;
		if (std::is_unsigned<T>::value) want = x != T(0);
		MC_CHECK(do_signum<T>(x) == want, "signum(%g) is %d", (double)x, do_signum<T>(x));
		MC_CHECK(do_delta<T>(x) == T(want == 0), "delta(%g) is %g", (double)x, (double)do_delta<T>(x));
		++mc::res.evals;
		mc::outcome(mc::mix(want, mc::bits((double)x)));
	};
	for (T x : values<T>()) check(x);
	if constexpr (std::is_integral<T>::value && sizeof(T) <= 2) for (int i = std::numeric_limits<T>::min(); i <= std::numeric_limits<T>::max(); ++i) check(T(i));
}
template <class T>
void clamps()
{
	std::vector<T> v = values<T>();
	for (T a : v) for (T b : v) if (!(b < a)) for (T x : v) {
		T y = do_clamp<T>(x, a, b);
		MC_CHECK(y == (x < a ? a : x > b ? b : x), "clamp(%.9g, %.9g, %.9g) is %.9g", (double)x, (double)a, (double)b, (double)y);
		++mc::res.evals;
		if (mc::res.evals % 256 == 1) mc::outcome(mc::mix(mc::bits((double)x), mc::bits((double)y)));
	}
}
template <class T>
void lerps()
{
	std::vector<T> v;
	for (T x : values<T>()) if (std::abs(x) < T(1e18)) v.push_back(x);
	const ld e = mc::eps<T>();
	std::vector<T> weights;
	for (int k = -16; k <= 32; ++k) weights.push_back(T(k) / T(16));
	for (T w : {T(0.1), T(1e-6), T(0.999), T(1) / T(3)}) weights.push_back(w);
	for (T a : v) for (T b : v) for (T w : weights) {
		T y = do_lerp<T, T>(a, b, w);
		ld want = (1 - (ld)w) * (ld)a + (ld)w * (ld)b, tol = 4 * e * (std::abs((1 - (ld)w) * a) + std::abs((ld)w * b)) + 0x1p-124L, d = std::abs((ld)y - want);
		worst = max(worst, (double)(d / tol));
		MC_CHECK(mc::finite_bits(y) && d <= tol, "lerp(%.9g, %.9g, %.9g) is %.9g", (double)a, (double)b, (double)w, (double)y);
		++mc::res.evals;
		if (mc::res.evals % 64 == 1) mc::outcome(mc::mix(mc::bits(y), mc::bits(w)));
	}
	// complex values with a real weight
	typedef DSP::Complex<T> C;
	std::vector<C> c;
	for (T re : {T(0), T(1), T(-0.1), T(1e6), T(3.3)}) for (T im : {T(0), T(-7), T(0.01), T(1e-6)}) c.push_back(C(re, im));
	for (C a : c) for (C b : c) for (T w : weights) {
		C y = do_lerp<C, T>(a, b, w);
		T re = do_lerp<T, T>(a.real(), b.real(), w), im = do_lerp<T, T>(a.imag(), b.imag(), w);
		ld tol = 4 * e * (1 + std::abs((ld)w)) * (std::abs((ld)a.real()) + std::abs((ld)b.real())) + 1e-30L, tim = 4 * e * (1 + std::abs((ld)w)) * (std::abs((ld)a.imag()) + std::abs((ld)b.imag())) + 1e-30L;
		MC_CHECK(std::abs((ld)y.real() - re) <= tol && std::abs((ld)y.imag() - im) <= tim, "lerp of (%g,%g) and (%g,%g) at %g is (%.9g,%.9g)", (double)a.real(), (double)a.imag(), (double)b.real(), (double)b.imag(), (double)w, (double)y.real(), (double)y.imag());
		++mc::res.evals;
	}
	// integers with a floating-point weight: the mean converted to the integer type
	for (int a = -40; a <= 40; ++a) for (int b = -40; b <= 40; ++b) for (int k = 0; k <= 8; ++k) {
		int y = do_lerp<int, T>(a, b, T(k) / T(8)), want = ((8 - k) * a + k * b) / 8;
		MC_CHECK(y == want, "lerp(%d, %d, %d/8) is %d", a, b, k, y);
		++mc::res.evals;
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
template <class T>
void sincs()
{
	const ld e = mc::eps<T>();
	auto check = [&](T x) {
		T y = do_sinc<T>(x);
		ld lx = x, want = lx == 0 ? 1 : sinl(PI * lx) / (PI * lx), d = std::abs((ld)y - want), tol = 3 * e;
		worst = max(worst, (double)(d / tol));
		MC_CHECK(mc::finite_bits(y) && d <= tol, "sinc(%.9g) is %.9g instead of %.9g", (double)x, (double)y, (double)want);
		if (x == T(0)) MC_CHECK(y == T(1), "sinc(0) is %.9g", (double)y);
		++mc::res.evals;
		if (mc::res.evals % 4 == 1) mc::outcome(mc::bits(y));
	};
	for (int k = -mc::pick(2000, 200000, 2000000); k <= mc::pick(2000, 200000, 2000000); ++k) check(T(k) / T(256));
	for (T x : values<T>()) if (std::abs(x) < T(1e6)) check(x);
	for (int m = 0; m < 64; ++m) for (int ex = -100; ex < 16; ++ex) { check(T(ldexp(1 + m / 64.0, ex))); check(T(-ldexp(1 + m / 64.0, ex))); }
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
template <class T>
void pdfs()
{
	const ld e = mc::eps<T>();
	for (double m : {0.0, 1.0, -2.5, 100.0, 0.001}) for (double s : {1.0, 0.5, 0.01, 3.0, 200.0}) for (int k = -mc::pick(40, 400, 4000); k <= mc::pick(40, 400, 4000); ++k) {
		volatile T vx = T(m + s * k / 64.0), vm = T(m), vs = T(s);
		T x = vx, y = do_pdf<T>(x, vm, vs);
		ld z = ((ld)x - (ld)vm) / (ld)vs;
		if (std::abs(z) > 8) continue;
		ld want = expl(-z * z / 2) / (sqrtl(2 * PI) * (ld)vs), tol = want * e * (8 + 3 * z * z), d = std::abs((ld)y - want);
		worst = max(worst, (double)(d / tol));
		MC_CHECK(mc::finite_bits(y) && d <= tol, "normal_pdf(%.9g, %.9g, %.9g) is %.9g instead of %.9g", (double)x, m, s, (double)y, (double)want);
		++mc::res.evals;
		mc::outcome(mc::bits(y));
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}

void register_scenarios()
{
	using mc::scenario;
#define S_(T) scenario("signum and delta " #T, []() { signs<T>(); }); scenario("clamp " #T, []() { clamps<T>(); });
	S_(int8_t) S_(short) S_(int) S_(int64_t) S_(float) S_(double)
	S_(uint8_t) S_(uint16_t) S_(unsigned) S_(uint64_t) // exotic
#define F_(T) scenario("lerp " #T, lerps<T>); scenario("sinc " #T, sincs<T>); scenario("normal density " #T, pdfs<T>);
	F_(float) F_(double)
}
