// C17: atan and atan2 against the C library in higher precision
#include "mc.hh"
#include "const.hh"
#include "atan2.hh"

using mc::str;
typedef mc::ld ld;

static double cx, cy;
static double worst[3];
static void trace() { mc::describe = []() { return str("y=%.17g (%a) x=%.17g (%a)", cy, cy, cx, cx); }; }
template <class T> __attribute__((noinline)) T lib_atan(T x) { return DSP::atan(x); }
template <class T> __attribute__((noinline)) T lib_atan2(T y, T x) { return DSP::atan2(y, x); }
template <class T> bool sign_bit(T v) { return mc::bits(v) >> (8 * sizeof(T) - 1); }

template <class T, class R>
inline void one(T x, R want)
{
	const R tiny = std::numeric_limits<T>::min(), e = std::numeric_limits<T>::epsilon();
	T g = lib_atan(x);
	R d = (R)g - want;
	if (d < 0) d = -d;
	R w = want < 0 ? -want : want;
	R tol = 4 * e * (w < 1 ? w : 1) + tiny;
	if (d > worst[0] * tol) worst[0] = (double)(d / tol);
	if (!(mc::finite_bits(g) && d <= tol)) { cx = x; cy = 0; MC_FAIL("atan(%.17g) is %.17g instead of %.17g", (double)x, (double)g, (double)want); }
	T n = lib_atan(T(-x));
	if (!(n == -g)) { cx = x; cy = 0; MC_FAIL("atan is not odd at %.17g: %.17g and %.17g", (double)x, (double)g, (double)n); }
}
static float from_bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static double from_bits(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }

// all positive finite floats with the given top bits, low bits stepping
static void floats(uint32_t lo, uint32_t hi, uint32_t step)
{
	trace();
	for (uint64_t b = lo; b < hi; b += step) {
		float x = from_bits((uint32_t)b);
		one<float, double>(x, ::atan((double)x));
		++mc::res.evals;
		if (b % (1 << 14) == 0) { mc::step(); mc::outcome(mc::bits(lib_atan(x))); }
	}
	mc::note(str("%s: atan at most %.3f of the tolerance", mc::cur_name.c_str(), worst[0]));
	mc::describe = nullptr;
}
static void doubles(int lo, int hi, int step)
{
	trace();
	for (int exponent = lo; exponent < hi; exponent += step) {
		const int n = exponent > 1000 && exponent < 1040 ? 14 : 9;
		for (uint64_t m = 0; m < 1u << n; ++m) for (uint64_t low : {0ULL, 1ULL, (1ULL << (52 - n)) - 1, 0x123456789abULL & ((1ULL << (52 - n)) - 1)}) {
			double x = from_bits((uint64_t)exponent << 52 | m << (52 - n) | low);
			one<double, ld>(x, atanl(x));
			++mc::res.evals;
			if (m % 64 == 0) mc::outcome(mc::bits(lib_atan(x)));
		}
		mc::step();
	}
	mc::note(str("%s: atan at most %.3f of the tolerance", mc::cur_name.c_str(), worst[0]));
	mc::describe = nullptr;
}
template <class T>
void pair(T y, T x)
{
	if (x == 0 && y == 0) return;
	cy = y; cx = x;
	const ld tiny = std::numeric_limits<T>::min(), e = mc::eps<T>();
	T g = lib_atan2(y, x);
	ld want = atan2l((ld)y, (ld)x);
	ld d = (ld)g - want;
	if (d < 0) d = -d;
	ld w = want < 0 ? -want : want;
	ld tol = 10 * e * (w < 1 ? w : 1) + tiny;
	worst[1] = max(worst[1], (double)(d / tol));
	MC_CHECK(mc::finite_bits(g) && d <= tol, "atan2(%.17g, %.17g) is %.17g instead of %.17g", (double)y, (double)x, (double)g, (double)want);
	const ld pi = acosl(-1);
	MC_CHECK((ld)g <= pi * (1 + e) && (ld)g >= -pi * (1 + e), "atan2(%.17g, %.17g) = %.17g out of range", (double)y, (double)x, (double)g);
	if (y != 0) MC_CHECK(g == 0 ? w < tiny : (g < 0) == (y < 0), "atan2(%.17g, %.17g) = %.17g has the wrong sign", (double)y, (double)x, (double)g);
	++mc::res.evals;
	if (mc::res.evals % 64 == 1) mc::outcome(mc::bits(g));
	mc::step();
}
// every exponent combined with every exponent; subnormals only where the floating-point mode keeps them
template <class T>
void exponents(int part, int parts)
{
	trace();
	std::vector<T> v{0};
	const int step = std::is_same<T, float>::value ? 1 : mc::thorough() ? 2 : 6;
	volatile T sub = std::numeric_limits<T>::denorm_min(), one = 1;
	volatile T product = sub * one;
	const bool keep = mc::bits((T)product) != 0;
	if (keep) for (T x : {std::numeric_limits<T>::denorm_min(), T(std::numeric_limits<T>::min() / 3)}) v.push_back(x);
	for (int e = std::numeric_limits<T>::min_exponent - 1; e < std::numeric_limits<T>::max_exponent; e += step)
		for (double m : {1.0, 1.5, 2 - 2 * mc::eps<T>()}) v.push_back(std::ldexp(T(m), e));
	v.push_back(std::numeric_limits<T>::max());
	for (size_t i = 0, n = v.size(); i < n; ++i) if (v[i] != 0) v.push_back(-v[i]);
	for (size_t i = part; i < v.size(); i += parts) for (T x : v) pair<T>(v[i], x);
	mc::note(str("%s: atan2 at most %.3f of the tolerance", mc::cur_name.c_str(), worst[1]));
	mc::describe = nullptr;
}
// all directions of an integer lattice at several scales
template <class T>
void lattice(int R)
{
	trace();
	for (double s : {1.0, 0.01, 1e15, 1e-15}) for (int a = -R; a <= R; ++a) for (int b = -R; b <= R; ++b) pair<T>(T(a * s), T(b * s));
	mc::note(str("%s: atan2 at most %.3f of the tolerance", mc::cur_name.c_str(), worst[1]));
	mc::describe = nullptr;
}
// the axes, with the signs of zero where the floating-point mode keeps them
template <class T>
void axes()
{
	trace();
	const T pi = DSP::Const<T>::Pi(), half = DSP::Const<T>::HalfPi();
	for (int e = std::numeric_limits<T>::min_exponent - 1; e < std::numeric_limits<T>::max_exponent; ++e) {
		T v = std::ldexp(T(1.25), e);
		cy = 0; cx = v;
		MC_CHECK(lib_atan2(T(0), v) == 0 && lib_atan2(T(0), T(-v)) == pi, "on the x axis at %g", (double)v);
		MC_CHECK(lib_atan2(v, T(0)) == half && lib_atan2(T(-v), T(0)) == -half, "on the y axis at %g", (double)v);
#ifndef __FAST_MATH__
		MC_CHECK(lib_atan2(-T(0), T(-v)) == -pi, "sign of zero y");
		MC_CHECK(sign_bit(lib_atan2(-T(0), v)) && !sign_bit(lib_atan2(T(0), v)), "sign of zero result");
#endif
		mc::step();
		mc::res.evals += 4;
	}
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	const uint32_t inf = 0x7f800000u;
	const int chunks = 64;
	const uint32_t step = mc::pick(1009, 1, 1);
	for (int i = 0; i < chunks; ++i) scenario(str("all floats in steps of %u, part %d of %d", step, i, chunks), [=]() {
		floats((uint64_t)inf * i / chunks / step * step, (uint64_t)inf * (i + 1) / chunks / step * step, step);
		if (step != 1) mc::res.exhaustive = false;
	});
	// every float next to the switching points
	for (float c : {0.66f, 2.4142135f, 1.0f, 0.41421357f, 1.5151515f}) scenario(str("all floats around %g", c), [=]() {
		uint32_t b; memcpy(&b, &c, 4);
		uint32_t r = mc::pick(1 << 10, 1 << 17, 1 << 18);
		floats(b - r, b + r, 1);
	});
	for (int i = 0; i < 8; ++i) scenario(str("double, part %d of 8", i), [i]() { doubles(1 + i, 2047, mc::san ? 200 : 8); });
	for (int i = 0; i < 8; ++i) scenario(str("float exponent pairs, part %d of 8", i), [i]() { exponents<float>(i, mc::san ? 128 : 8); });
	for (int i = 0; i < 8; ++i) scenario(str("double exponent pairs, part %d of 8", i), [i]() { exponents<double>(i, mc::san ? 128 : 8); });
	scenario("float directions", []() { lattice<float>(mc::pick(20, 150, 500)); });
	scenario("double directions", []() { lattice<double>(mc::pick(20, 150, 500)); });
	scenario("float axes", axes<float>);
	scenario("double axes", axes<double>);
}
