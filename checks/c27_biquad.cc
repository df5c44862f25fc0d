// C27: biquad sections and cascades against the bilinear transform of their prototypes
#include "mc.hh"
#include "complex.hh"
#include "biquad.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static const ld PI = acosl(-1);

enum Kind { LOW, HIGH, NOTCH, BAND, ALL };
static const char *const kind_name[] = {"lowpass", "highpass", "notch", "bandpass", "allpass"};

// numerator and denominator of H(s) with s = (1/K) (1-z)/(1+z), K = tan(Pi n/N), times (1+z)^2, z a unit delay
struct Ref {
	ld b[3] = {1, 0, 0}, a[3] = {1, 0, 0};
	cld x1 = 0, x2 = 0, y1 = 0, y2 = 0;
	void set(Kind kind, int n, int N, ld Q)
	{
		ld K = tanl(PI * n / N), num2 = 0, num1 = 0, num0 = 0;
		switch (kind) {
		case LOW: num0 = 1; break;
		case HIGH: num2 = 1; break;
		case NOTCH: num2 = 1; num0 = 1; break;
		case BAND: num1 = 1 / Q; break;
		case ALL: num2 = 1; num1 = -1 / Q; num0 = 1; break;
		}
		auto expand = [&](ld s2, ld s1, ld s0, ld *c) {
			s2 /= K * K; s1 /= K;
			c[0] = s2 + s1 + s0;
			c[1] = 2 * s0 - 2 * s2;
			c[2] = s2 - s1 + s0;
		};
		expand(num2, num1, num0, b);
		expand(1, 1 / Q, 1, a);
		for (ld &v : b) v /= a[0];
		a[1] /= a[0]; a[2] /= a[0]; a[0] = 1;
	}
	cld operator()(cld x)
	{
		cld y = b[0] * x + b[1] * x1 + b[2] * x2 - a[1] * y1 - a[2] * y2;
		x2 = x1; x1 = x; y2 = y1; y1 = y;
		return y;
	}
};
template <class F, class V> void configure(F &f, Kind kind, int n, int N, V q)
{
	switch (kind) {
	case LOW: f.lowpass(n, N, q); break;
	case HIGH: f.highpass(n, N, q); break;
	case NOTCH: f.notch(n, N, q); break;
	case BAND: f.bandpass(n, N, q); break;
	case ALL: f.allpass(n, N, q); break;
	}
}
// the quality of the last three is given in decibel
template <class V> ld quality(Kind kind, V q) { return kind <= HIGH ? (ld)q : powl(10, (ld)q / 10); }

static double worst;
static std::string what;

// impulse response followed by a step and an alternating input
template <class V>
void response(Kind kind, int n, int N, V q, int steps, int level = 0)
{
	typedef DSP::Biquad<V, V> F;
	static mc::Arena<F> arena;
	what = str("%s(%d, %d, %.9g) %s", kind_name[kind], n, N, (double)q, sizeof(V) == 4 ? "float" : "double");
	if (level) what += str(", input times 2^%d", level);
	const ld scale = std::ldexp((ld)1, level);
	mc::describe = [] { return what; };
	F &f = arena.make(0x4B);
	configure(f, kind, n, N, q);
	Ref r;
	const ld Q = quality(kind, q);
	r.set(kind, n, N, Q);
	// rounded coefficients move the poles by some epsilon, amplified by the inverse distance from the real axis and the unit circle
	const ld w = 2 * PI * n / N, s = sinl(w), alpha = s / (2 * Q), noise = mc::eps<V>() * (kind <= HIGH ? 8 : 64) * (1 + 1 / (s * s)) * (1 + 1 / alpha) * max((ld)1, alpha);
	ld top = scale;
	for (int t = 0; t < steps; ++t) {
		int x = t == 0 ? 1 : t < steps / 3 ? 0 : t < 2 * steps / 3 ? 1 : t & 1 ? -1 : 1;
		V y = f(V(x * scale));
		cld z = r(x * scale);
		top = max(top, std::abs(z));
		ld d = std::abs((ld)y - z.real());
		ld tol = noise * top;
		worst = max(worst, (double)(d / tol));
		MC_CHECK(mc::finite_bits(y) && d <= tol, "output %d is %.9g instead of %.9g, tolerance %.3g", t, (double)y, (double)z.real(), (double)tol);
		mc::step();
		++mc::res.states;
		if (t % 32 == 3) mc::outcome(mc::mix(mc::bits(y), t));
	}
	++mc::res.traces;
	if (mc::want_sample()) mc::sample(what);
	mc::describe = nullptr;
}
// running sections reconfigured at any time
template <class T, class V>
void sequences(int depth, bool cplx)
{
	typedef DSP::Biquad<T, V> F;
	static mc::Dfs<F, Ref> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	const ld e = mc::eps<V>();
	std::vector<cld> in = {{1, cplx ? 2.L : 0}, {-3, cplx ? 0.5L : 0}};
	for (cld x : in) dfs.ops.push_back({str("in(%g,%g)", (double)x.real(), (double)x.imag()), [=](F &f, Ref &r) {
		cld z = r(x), y;
		if constexpr (std::is_same<T, V>::value) y = (ld)f(V(x.real()));
		else { T v = f(T(V(x.real()), V(x.imag()))); y = cld((ld)v.real(), (ld)v.imag()); }
		ld d = std::abs(y - z), tol = 200 * e * (4 + std::abs(z));
		worst = max(worst, (double)(d / tol));
		MC_CHECK(d <= tol && d == d, "output (%.9g,%.9g) instead of (%.9g,%.9g)", (double)y.real(), (double)y.imag(), (double)z.real(), (double)z.imag());
		mc::outcome(mc::mix(mc::bits((double)z.real()), mc::bits((double)z.imag())));
	}});
	auto conf = [&](Kind kind, int n, int N, V q) {
		dfs.ops.push_back({str("%s(%d,%d,%g)", kind_name[kind], n, N, (double)q), [=](F &f, Ref &r) { configure(f, kind, n, N, q); r.set(kind, n, N, quality(kind, q)); }});
	};
	conf(LOW, 1, 8, V(0.75));
	conf(HIGH, 1, 5, V(2));
	conf(NOTCH, 3, 8, V(3));
	conf(BAND, 1, 8, V(-2));
	conf(ALL, 2, 7, V(1));
	dfs.run(depth, Ref());
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// default quality and default state
template <class V>
void defaults()
{
	typedef DSP::Biquad<V, V> F;
	static mc::Arena<F> arena;
	for (int poison : {0, 0x4B, 0xFF}) for (int k = 0; k < 2; ++k) for (int N : {5, 16, 100}) {
		F &f = arena.make(poison);
		Ref r;
		for (int t = 0; t < 30; ++t) {
			if (t == 15) {
				if (k) f.highpass(1, N); else f.lowpass(1, N);
				r.set(k ? HIGH : LOW, 1, N, sqrtl(0.5L));
			}
			V x = V((t * 7 % 11) - 4);
			cld z = r((ld)x);
			V y = f(x);
			MC_CHECK(std::abs((ld)y - z.real()) <= 500 * (ld)mc::eps<V>() * 10, "N=%d step %d: %.9g instead of %.9g", N, t, (double)y, (double)z.real());
			if (t < 15) MC_CHECK(y == x, "an unconfigured section returned %.9g for %.9g", (double)y, (double)x);
			mc::step();
			++mc::res.states;
			mc::outcome(mc::bits(y));
		}
		++mc::res.traces;
	}
}
// Butterworth response of cascades
template <class V, int NUM>
void cascade(const std::vector<std::pair<int, int>> &cutoffs, int steps)
{
	typedef DSP::BiquadCascade<V, V, NUM> F;
	static mc::Arena<F> arena;
	mc::describe = [] { return what; };
	for (auto c : cutoffs) for (int high = 0; high < 2; ++high) {
		const int n = c.first, N = c.second;
		what = str("cascade of %d, %s(%d, %d), %s", NUM, high ? "highpass" : "lowpass", n, N, sizeof(V) == 4 ? "float" : "double");
		F &f = arena.make(0x4B);
		V y = f(V(3)); // passes unchanged and leaves a history behind
		MC_CHECK(y == V(3), "an unconfigured cascade returned %.9g for 3", (double)y);
		f(V(0)); f(V(0));
		if (high) f.highpass(n, N); else f.lowpass(n, N);
		std::vector<ld> h(steps);
		for (int t = 0; t < steps; ++t) { h[t] = f(V(t == 0)); mc::step(); ++mc::res.states; }
		ld tail = 0, tol = sizeof(V) == 4 ? 2e-4L : 1e-8L;
		for (int t = steps - 20; t < steps; ++t) tail = max(tail, std::abs(h[t]));
		MC_CHECK(tail < tol, "response has not decayed after %d samples: %.3g", steps, (double)tail);
		std::vector<ld> freq = {0, (ld)n / N / 2, (ld)n / N, (ld)n / N * 0.9L, (ld)n / N * 1.1L, ((ld)n / N + 0.5L) / 2, 0.5L};
		for (ld fr : freq) {
			if (fr > 0.5L) continue;
			cld H = 0;
			for (int t = 0; t < steps; ++t) H += h[t] * std::polar((ld)1, -2 * PI * fr * t);
			ld g = fr >= 0.5L - 1e-12L ? 1e30L : tanl(PI * fr) / tanl(PI * n / N);
			ld ratio = high ? (g == 0 ? 1e30L : 1 / g) : g;
			ld want = 1 / sqrtl(1 + powl(ratio, 4 * NUM)), got = std::abs(H);
			worst = max(worst, (double)(std::abs(got - want) / tol));
			MC_CHECK(std::abs(got - want) <= tol, "gain at %.4g is %.9g instead of %.9g", (double)fr, (double)got, (double)want);
			mc::outcome(mc::mix(mc::bits((double)want), NUM));
		}
		++mc::res.traces;
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	const int top = mc::pick(12, 40, 100);
	for (int k = 0; k < 5; ++k) for (int part = 0; part < 4; ++part) scenario(str("%s, all n/N with N up to %d, part %d", kind_name[k], top, part), [=]() {
		for (int N = 3 + part; N <= top; N += 4) for (int n = 1; 2 * n < N; ++n) for (double q : {0.3, 0.5, 0.70710678118654752440, 1.0, 3.0, 10.0}) {
			double v = k <= HIGH ? q : (q - 0.5) * 3;
			response<double>(Kind(k), n, N, v, 120);
			response<float>(Kind(k), n, N, float(v), 120);
		}
		for (int N : {1000, 8000, 48000}) for (int p : {1, 7, 50, 250, 499}) if (part == 0) for (double q : {0.5, 0.7071, 4.0}) response<double>(Kind(k), p * (N / 1000), N, q, 3000);
		mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	});
	scenario("high qualities", []() {
		for (int k = 0; k < 5; ++k) for (int N : {4, 5, 8, 16, 50, 100}) for (double q : {15.0, 25.0, 50.0, 100.0, 1000.0}) {
			double v = k <= HIGH ? q : 10 * std::log10(q);
			for (int n : {1, N / 2 - 1}) {
				response<double>(Kind(k), n, N, v, 3000);
				response<float>(Kind(k), n, N, float(v), 3000);
			}
		}
		mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	});
	scenario("low qualities", []() {
		for (int k = 0; k < 5; ++k) for (int N : {4, 5, 8, 16, 50, 100}) for (double q : {0.2, 0.1, 0.05, 0.01, 0.003, 0.001}) {
			double v = k <= HIGH ? q : 10 * std::log10(q);
			for (int n : {1, N / 2 - 1}) {
				response<double>(Kind(k), n, N, v, 3000);
				response<float>(Kind(k), n, N, float(v), 3000);
			}
		}
		mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	});
	scenario("levels", []() {
		for (int k = 0; k < 5; ++k) for (int level : {-80, -60, -30, -15, 20, 60, 80}) for (int N : {7, 16, 50}) {
			response<double>(Kind(k), 1, N, 0.7, 300, level);
			response<float>(Kind(k), 1, N, 0.7f, 300, level);
		}
	});
	scenario("long runs", []() {
		const int steps = mc::pick(3000, 300000, 3000000);
		for (int k = 0; k < 5; ++k) for (auto c : {std::pair<int, int>{1, 8}, {5, 16}}) {
			response<double>(Kind(k), c.first, c.second, 0.7, steps);
			response<float>(Kind(k), c.first, c.second, 0.7f, steps);
		}
		mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	});
	const int depth = mc::pick(5, 7, 8);
	scenario("reconfiguration float", [=]() { sequences<float, float>(depth, false); });
	scenario("reconfiguration double", [=]() { sequences<double, double>(depth, false); });
	scenario("reconfiguration complex float", [=]() { sequences<DSP::Complex<float>, float>(depth - 1, true); }); // exotic
	scenario("reconfiguration complex double", [=]() { sequences<DSP::Complex<double>, double>(depth - 1, true); }); // exotic
	scenario("defaults float", []() { defaults<float>(); });
	scenario("defaults double", []() { defaults<double>(); });
	const std::vector<std::pair<int, int>> cut = {{1, 4}, {1, 8}, {3, 8}, {1, 5}, {2, 5}, {1, 10}, {45, 100}, {3000, 48000}, {1, 25}};
	auto all = [=](auto num) {
		constexpr int NUM = decltype(num)::value;
		scenario(str("cascade %d double", NUM), [=]() { cascade<double, NUM>(cut, 4000); });
		scenario(str("cascade %d float", NUM), [=]() { cascade<float, NUM>(cut, 4000); });
	};
	all(std::integral_constant<int, 1>()); all(std::integral_constant<int, 2>()); all(std::integral_constant<int, 3>()); all(std::integral_constant<int, 4>());
	all(std::integral_constant<int, 5>()); all(std::integral_constant<int, 6>()); all(std::integral_constant<int, 8>()); all(std::integral_constant<int, 11>());
}
