// C19: powers of ten and decibels
#include "mc.hh"
#include "exp.hh"
#include "decibel.hh"

using mc::str;
typedef mc::ld ld;

static double cx;
static double worst[4];
static mc::u64 last; // bits of the latest result
static void trace() { mc::describe = []() { return str("argument %.17g (%a)", cx, cx); }; }
template <class T> __attribute__((noinline)) T lib_exp10(T x) { return DSP::exp10(x); }
template <class T> __attribute__((noinline)) T lib_db(T x) { return DSP::decibel(x); }
template <class T> __attribute__((noinline)) T lib_idb(T x) { return DSP::idecibel(x); }
static float from_bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static double from_bits(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static double ref10(float x) { return ::pow(10.0, (double)x); }
static ld ref10(double x) { return powl(10.0L, (ld)x); }
static double reflog(float x) { return ::log10((double)x); }
static ld reflog(double x) { return log10l((ld)x); }
template <class R> R mag(R v) { return v < 0 ? -v : v; }
// rounding of the ten square roots plus the series truncated after the 13th power
template <class T> double dbtol(double dB)
{
	double t = std::tanh(dB * std::log(10.0) / 20480);
	double t2 = t * t, t15 = std::abs(t) * t2 * t2 * t2 * t2 * t2 * t2 * t2;
	return (std::is_same<T, float>::value ? 2e-3 : 2e-11) + 8894.36 * t15 / 15 / (1 - t2) * 1.0001;
}

template <class T>
inline void power(T x)
{
	typedef typename std::conditional<std::is_same<T, float>::value, double, ld>::type R;
	cx = x;
	static const R lo = std::numeric_limits<T>::min(), hi = (R)std::numeric_limits<T>::max() * (R)0.7, e = std::numeric_limits<T>::epsilon();
	R want = ref10(x);
	if (want > lo * (1 + 64 * e) && want < hi) {
		T g = lib_exp10(x);
		last = mc::bits(g);
		R d = mag((R)g - want), tol = 3 * e * (1 + mag((R)x)) * want;
		if (d > worst[0] * tol) worst[0] = (double)(d / tol);
		if (!(mc::finite_bits(g) && d <= tol)) MC_FAIL("10^%.17g is %.17g instead of %.17g", (double)x, (double)g, (double)want);
		++mc::res.evals;
	}
	want = ref10(T(x / T(10)));
	if (want > lo * (1 + 1000 * e) && want < hi) {
		T g = lib_idb(x);
		last = mc::bits(g);
		R d = mag((R)g - want), tol = 3 * e * (1 + mag((R)x / 10)) * want;
		if (d > worst[1] * tol) worst[1] = (double)(d / tol);
		if (!(mc::finite_bits(g) && d <= tol)) MC_FAIL("inverse decibel of %.17g is %.17g instead of %.17g", (double)x, (double)g, (double)want);
		++mc::res.evals;
	}
}
template <class T>
inline void level(T x)
{
	typedef typename std::conditional<std::is_same<T, float>::value, double, ld>::type R;
	cx = x;
	R want = 10 * reflog(x);
	T g = lib_db(x);
	last = mc::bits(g);
	R d = mag((R)g - want);
	const double dt = dbtol<T>(want);
	if (d > worst[2] * dt) worst[2] = (double)(d / dt);
	if (!(mc::finite_bits(g) && d <= dt)) MC_FAIL("decibel of %.17g is %.17g instead of %.17g", (double)x, (double)g, (double)want);
	if (x > 2 * std::numeric_limits<T>::min() && x < std::numeric_limits<T>::max() * T(0.5)) {
		T back = lib_idb(g);
		R rel = mag((R)back / (R)x - 1), tol = dt * 0.2303 + 64 * mc::eps<T>() * 40;
		if (!(mc::finite_bits(back) && rel <= tol)) MC_FAIL("round trip of %.17g gives %.17g", (double)x, (double)back);
	}
	++mc::res.evals;
}
static void done()
{
	mc::step();
	mc::note(str("%s: at most %.3f (power) %.3f (inverse decibel) %.3f (decibel) of the tolerance", mc::cur_name.c_str(), worst[0], worst[1], worst[2]));
	mc::describe = nullptr;
}
// float bit patterns: the argument of the powers in both signs, of the decibel where positive and normal
static void floats(uint32_t lo, uint32_t hi, uint32_t step, bool pw)
{
	trace();
	for (uint64_t b = lo; b < hi; b += step) {
		float x = from_bits((uint32_t)b);
		if (pw) { power(x); power(-x); }
		else level(x);
		if (b % 4096 < step) { mc::step(); mc::outcome(last); }
	}
	done();
}
static void doubles(int part, int parts)
{
	trace();
	// all arguments k/4096 of the range, with offsets in the last bits
	const int den = mc::pick(8, 512, 4096);
	for (long k = -3300L * den / 1 + part; k <= 3100L * den; k += parts) {
		double x = (double)k / den;
		if (x > -330 && x < 310) { power(x); power(x + x * 1e-15 + 1e-12); }
		else power(x);
		if (k % 64 == 0) { mc::step(); mc::outcome(last); }
	}
	for (int e = 1 + part; e < 2047; e += parts) for (uint64_t m = 0; m < (mc::san ? 16 : 512); ++m) for (uint64_t low : {0ULL, 1ULL, (1ULL << 43) - 1}) {
		uint64_t step = mc::san ? 1ULL << 48 : 1ULL << 43;
		level(from_bits((uint64_t)e << 52 | m * step | low));
		if (m % 64 == 0) { mc::step(); mc::outcome(last); }
	}
	// around one, where the result is small
	for (int k = -20000 + part; k <= 20000; k += parts) level(1 + k * 1e-7), level(1 + k * std::numeric_limits<double>::epsilon());
	done();
}

void register_scenarios()
{
	const uint32_t step = mc::pick(4099, 1, 1);
	const int chunks = 16;
	auto range = [=](const char *name, float lo, float hi, bool pw) {
		uint32_t a, b;
		memcpy(&a, &lo, 4);
		memcpy(&b, &hi, 4);
		for (int i = 0; i < chunks; ++i) mc::scenario(str("%s in steps of %u, part %d of %d", name, step, i, chunks), [=]() {
			floats(a + (uint64_t)(b - a) * i / chunks, a + (uint64_t)(b - a) * (i + 1) / chunks, step, pw);
			if (step != 1) mc::res.exhaustive = false;
		});
	};
	range("float powers", 1e-12f, 390.f, true);
	range("float decibels", std::numeric_limits<float>::min(), std::numeric_limits<float>::infinity(), false);
	for (int i = 0; i < 8; ++i) mc::scenario(str("double, part %d of 8", i), [i]() { doubles(i, 8); });
	mc::scenario("exact points", []() {
		trace();
		cx = 0;
		MC_CHECK(lib_exp10(0.f) == 1 && lib_exp10(0.) == 1 && lib_idb(0.f) == 1 && lib_idb(0.) == 1, "ten to the power of zero");
		MC_CHECK(lib_db(1.f) == 0 && lib_db(1.) == 0, "decibel of one");
		power(0.f); power(0.); level(1.f); level(1.);
		done();
	});
}
