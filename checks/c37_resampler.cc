// C37: block and streaming resamplers against windowed-sinc interpolation
#include "mc.hh"
#include "const.hh"
#include "complex.hh"
#include "resampler.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static const ld PI = acosl(-1);
static double worst;

static ld bessel(ld x)
{
	ld sum = 1, t = 1;
	for (int m = 1; m < 200; ++m) { t *= (x / (2 * m)) * (x / (2 * m)); sum += t; }
	return sum;
}
// natural cubic spline through the windowed sinc, knots 1/over apart
struct Kernel {
	int taps, over;
	std::vector<ld> y, m; // values and second derivatives (in knots)
	Kernel(int taps, int over, ld rate, ld cutoff, ld alpha) : taps(taps), over(over)
	{
		const int K = taps * over;
		for (int n = 0; n < K; ++n) {
			ld x = n / (ld)over - (taps - 1) / (ld)2, f = 2 * cutoff / rate, w = 2 * n / (ld)(K - 1) - 1;
			y.push_back(f * (x == 0 ? 1 : sinl(PI * f * x) / (PI * f * x)) * bessel(PI * alpha * sqrtl(max(0.L, 1 - w * w))) / bessel(PI * alpha));
		}
		// m[i-1] + 4 m[i] + m[i+1] = 6 (y[i+1] - 2 y[i] + y[i-1]), m zero at both ends
		std::vector<ld> c(K, 0), d(K, 0);
		m.assign(K, 0);
		for (int i = 1; i < K - 1; ++i) {
			ld p = 4 - c[i - 1];
			c[i] = 1 / p;
			d[i] = (6 * (y[i + 1] - 2 * y[i] + y[i - 1]) - d[i - 1]) / p;
		}
		for (int i = K - 2; i > 0; --i) m[i] = d[i] - c[i] * m[i + 1];
	}
	ld operator()(ld x) const
	{
		ld u = x * over;
		int k = min(max((int)floorl(u), 0), taps * over - 2);
		ld t = u - k, s = 1 - t;
		return s * y[k] + t * y[k + 1] + ((s * s * s - s) * m[k] + (t * t * t - t) * m[k + 1]) / 6;
	}
	ld slope() const { return 8; } // generous
};
template <class IO> struct Io {
	static IO make(cld x) { return IO(x.real()); }
	static cld get(IO x) { return (ld)x; }
	static ld eps() { return mc::eps<IO>(); }
	static const bool cplx = false;
};
template <class V> struct Io<DSP::Complex<V>> {
	static DSP::Complex<V> make(cld x) { return DSP::Complex<V>(V(x.real()), V(x.imag())); }
	static cld get(DSP::Complex<V> x) { return cld((ld)x.real(), (ld)x.imag()); }
	static ld eps() { return mc::eps<V>(); }
	static const bool cplx = true;
};
static cld signal(int kind, int n, bool cplx)
{
	ld re = kind < 0 ? n == -kind : kind == 0 ? (n * 37 % 29 - 14) / (ld)8 : n & 1 ? -1 : 1;
	return cplx ? cld(re, kind < 0 ? n == 2 - kind : (n * 11 % 17 - 8) / (ld)8) : cld(re);
}
template <class V, class IO, int TAPS, int OVER>
void block(ld rate_, ld cutoff_, ld alpha_, bool brief, int level = 0, std::vector<int> lengths = {0, 1, TAPS - 1, TAPS, TAPS + 1, TAPS + 2, 2 * TAPS + 3, 4 * TAPS + 5, 200}, std::vector<int> strides = {1, 2, 3})
{
	const ld scale = std::ldexp((ld)1, level);
	typedef DSP::Resampler<V, TAPS, OVER> F;
	static mc::Arena<F> arena;
	std::string what;
	mc::describe = [&] { return what; };
	const V rate = V(rate_), cutoff = V(cutoff_), alpha = V(alpha_);
	const Kernel k(TAPS, OVER, (ld)rate, (ld)cutoff, (ld)alpha);
	F &f = arena.make(0x4B, rate, cutoff, alpha);
	const ld e = max<ld>(mc::eps<V>(), Io<IO>::eps());
	std::vector<ld> deltas = {0, 0.25L, -0.25L, 0.00001L, 0.0009765625L, -0.0009765625L, 1 / 3.L, -0.1L, 1, -0.4L};
	for (ld delta : deltas) for (int samples : lengths) for (int stride : strides) for (int kind : {0, 1, -1, -TAPS}) {
		if (brief && (stride == 3 || kind == 1 || samples == 200)) continue;
		volatile V vdiff = V(delta * (ld)rate);
		const V diff = vdiff;
		what = str("%d taps, %d knots per sample, rate %g, cutoff %g, alpha %g, diff %g, %d samples, stride %d, signal %d, level %d", TAPS, OVER, (double)rate, (double)cutoff, (double)alpha, (double)diff, samples, stride, kind, level);
		// exactly sized, so that the sanitizer sees any access outside; guards for the other builds
		const int need = samples ? (samples - 1) * stride + 1 : 0, pad = mc::san ? 0 : 64;
		const IO sentinel = Io<IO>::make(cld(12345, Io<IO>::cplx ? -777 : 0)), poison = Io<IO>::make(cld(1e18L, 0));
		std::vector<IO> in(need + 2 * pad, poison), out(need + 2 * pad, sentinel);
		for (int n = 0; n < samples; ++n) in[pad + n * stride] = Io<IO>::make(signal(kind, n, Io<IO>::cplx) * scale);
		f(out.data() + pad, (const IO *)in.data() + pad, diff, samples, stride);
		const ld ratio = (ld)rate / ((ld)rate + (ld)diff);
		std::vector<char> written(out.size(), 0);
		for (int i = 0; i < samples - TAPS; ++i) {
			const ld x = i * ratio, tol = e * (16 + 4 * TAPS) + 2 * e * (x + 1) * k.slope();
			const int at = pad + (i + (TAPS - 1) / 2) * stride;
			IO y = out[at];
			cld got = Io<IO>::get(y);
			written[at] = 1;
			bool good = false, any = false;
			ld least = 1;
			const ld slack = 1e-9L + 8 * e * (x + 1);
			cld want;
			for (int alt = 0; alt < 2; ++alt) { // an instant half way between two samples may use either
				int s0 = (int)floorl(x + 0.5L + (alt ? -slack : slack));
				if (s0 < 0 || s0 + TAPS > samples) { if (mc::bits(y) == mc::bits(sentinel)) good = true; continue; }
				any = true;
				cld sum = 0;
				ld mag = 0;
				for (int s = s0; s < s0 + TAPS; ++s) { cld v = signal(kind, s, Io<IO>::cplx) * scale; sum += k(s - x) * v; mag += std::abs(v); }
				ld d = std::abs(got - sum);
				if (d <= tol * (mag + scale) * 0.25L) { good = true; least = min(least, d / (tol * (mag + scale) * 0.25L)); }
				want = sum;
			}
			if (any && good) worst = max(worst, (double)least);
			MC_CHECK(good, "output %d is (%.9g,%.9g) instead of (%.9g,%.9g)%s", i, (double)got.real(), (double)got.imag(), (double)want.real(), (double)want.imag(), any ? "" : " and should not be written");
			mc::outcome(mc::mix(mc::bits((double)want.real()), i));
		}
		for (size_t i = 0; i < out.size(); ++i) if (!written[i]) MC_CHECK(mc::bits(out[i]) == mc::bits(sentinel), "output position %d was written", (int)i - pad);
		mc::step();
		++mc::res.states;
		++mc::res.traces;
	}
	mc::describe = nullptr;
}
// streaming: position of the next output relative to the newest sample, following the implementation's choice only where rounding decides
struct Ref {
	std::vector<cld> hist; // newest last
	ld dpos = 0, slack = 0, unit = 1;
	long long outputs = 0, inputs = 0;
};
template <class V, class IO, int TAPS, int OVER>
void feed(DSP::Resampler2<V, IO, TAPS, OVER> &f, Ref &r, const Kernel &k, V rate, cld x, V diff)
{
	const ld e = mc::eps<V>(), delta = (ld)diff / (ld)rate;
	IO out[6];
	const IO sentinel = Io<IO>::make(cld(12345, 0));
	for (IO &o : out) o = sentinel;
	r.hist.erase(r.hist.begin());
	r.hist.push_back(x);
	++r.inputs;
	int n = f(out + 1, Io<IO>::make(x), diff);
	MC_CHECK(n >= 0 && n <= 2, "%d outputs for one input", n);
	MC_CHECK(mc::bits(out[0]) == mc::bits(sentinel), "wrote before the output");
	for (int i = n; i < 5; ++i) MC_CHECK(mc::bits(out[1 + i]) == mc::bits(sentinel), "wrote output %d but returned %d", i, n);
	r.slack += 4 * e;
	if (n == 0) {
		MC_CHECK(r.dpos <= -0.5L + r.slack, "no output although the next one is due at %.6g", (double)r.dpos);
		r.dpos += 1;
		return;
	}
	MC_CHECK(r.dpos >= -0.5L - r.slack, "an output although the next one is due at %.6g", (double)r.dpos);
	for (int i = 0; i < n; ++i) {
		if (i) {
			MC_CHECK(r.dpos >= 0.5L - r.slack, "%d outputs although the next one is due at %.6g", n, (double)r.dpos);
			r.dpos -= 1;
		}
		cld want = 0, got = Io<IO>::get(out[1 + i]);
		ld mag = r.unit;
		for (int s = 0; s < TAPS; ++s) { want += k(s + r.dpos) * r.hist[s]; mag += std::abs(r.hist[s]); }
		ld tol = mag * (e * (16 + 4 * TAPS) + (r.slack + e * TAPS) * k.slope() / 2), d = std::abs(got - want);
		worst = max(worst, (double)(d / tol));
		MC_CHECK(d <= tol && d == d, "output (%.9g,%.9g) instead of (%.9g,%.9g), position %.6g", (double)got.real(), (double)got.imag(), (double)want.real(), (double)want.imag(), (double)r.dpos);
		r.dpos += delta;
		++r.outputs;
		mc::outcome(mc::mix(mc::bits((double)want.real()), mc::bits((double)want.imag())));
	}
	MC_CHECK(r.dpos <= 0.5L + r.slack, "only %d outputs although the next one is due at %.6g", n, (double)r.dpos);
}
template <class V, class IO, int TAPS, int OVER>
void sequences(int depth)
{
	typedef DSP::Resampler2<V, IO, TAPS, OVER> F;
	static mc::Dfs<F, Ref> dfs;
	const V rate = V(8000), cutoff = V(3500), alpha = V(1.5);
	const Kernel k(TAPS, OVER, 8000, 3500, 1.5L);
	dfs.make = [=](mc::Arena<F> &a, int poison) { a.make(poison, rate, cutoff, alpha); };
	for (cld x : {cld(1, -0.5L), cld(-2, 3)}) for (int d : {0, 2000, -2000, 4000, -4000, -700}) {
		if (!Io<IO>::cplx) x = x.real();
		if (d == 4000 && x.real() < 0) continue;
		dfs.ops.push_back({str("(%g%+gi, diff %d)", (double)x.real(), (double)x.imag(), d), [=](F &f, Ref &r) { feed<V, IO, TAPS, OVER>(f, r, k, rate, x, V(d)); }});
	}
	Ref r;
	r.hist.assign(TAPS, 0);
	dfs.run(depth, r);
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// long runs at constant and changing differences: output count and instants
template <class V, class IO, int TAPS, int OVER>
void longrun(int steps, int every = 250, int level = 0)
{
	const ld scale = std::ldexp((ld)1, level);
	typedef DSP::Resampler2<V, IO, TAPS, OVER> F;
	static mc::Arena<F> arena;
	const V rate = V(8000), cutoff = V(3000), alpha = V(2);
	const Kernel k(TAPS, OVER, 8000, 3000, 2);
	V diff;
	int t = 0;
	mc::describe = [&] { return str("diff %g, level %d, input %d", (double)diff, level, t); };
	std::vector<V> diffs;
	for (int d = -4000; d <= 4000; d += every) diffs.push_back(V(d));
	for (double d : {0.1, -0.03, 0.6, 1.75}) diffs.push_back(V(d));
	for (V each : diffs) for (int wobble = 0; wobble < 2; ++wobble) {
		diff = each;
		F &f = arena.make(0x4B, rate, cutoff, alpha);
		Ref r;
		r.hist.assign(TAPS, 0);
		r.unit = scale;
		ld instant = 0; // sum of 1 - delta over the outputs
		for (t = 0; t < steps; ++t) {
			V d = wobble ? (t / 50 % 2 ? diff : -diff / 2 + 1) : diff;
			long long before = r.outputs;
			feed<V, IO, TAPS, OVER>(f, r, k, rate, signal(0, t, Io<IO>::cplx) * scale, d);
			instant += (r.outputs - before) * (1 - (ld)d / 8000);
			MC_CHECK(std::abs(instant - (t + 1)) <= 1.0001L, "the output instants are %.4g samples off", (double)(instant - (t + 1)));
			mc::step();
			++mc::res.states;
		}
		++mc::res.traces;
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
#define B_(V, IO, T, O) scenario("block " #V " " #IO " " #T " " #O, []() { \
		block<V, IO, T, O>(8000, 3500, 1.5L, false); block<V, IO, T, O>(48000, 20000, 2, true); block<V, IO, T, O>(1, 0.5L, 0, true); block<V, IO, T, O>(44100, 5000, 3, true); block<V, IO, T, O>(8000, 3500, 1.5L, true, -80); block<V, IO, T, O>(8000, 3500, 1.5L, true, 80); \
		mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst)); });
	typedef DSP::Complex<float> cf;
	typedef DSP::Complex<double> cd;
	B_(float, float, 3, 1) B_(float, float, 4, 3) B_(float, float, 5, 4) B_(float, float, 16, 8) B_(float, float, 33, 32) B_(double, double, 1, 4)
	B_(float, cf, 7, 4) B_(double, cd, 8, 5) // exotic
	B_(double, double, 2, 2) B_(double, double, 5, 4) B_(double, double, 33, 16) B_(double, float, 9, 8)
	const int d = mc::pick(3, 5, 6);
#define S_(V, IO, T, O) scenario("streaming sequences " #V " " #IO " " #T " " #O, [=]() { sequences<V, IO, T, O>(d); });
	S_(float, float, 3, 4) S_(double, double, 5, 4)
	S_(float, cf, 4, 8) S_(double, cd, 2, 3) // exotic
#define L_(V, IO, T, O) scenario("streaming runs " #V " " #IO " " #T " " #O, []() { longrun<V, IO, T, O>(mc::pick(200, 2000, 20000)); });
	L_(float, float, 3, 4) L_(float, float, 16, 8) L_(float, float, 33, 32) L_(double, double, 5, 4) L_(double, double, 32, 16)
	scenario("long blocks", []() { block<double, double, 4, 4>(8000, 3500, 2, true, 0, {1000, 40000, 70000}, {1, 2}); });
	scenario("wide strides", []() { block<double, double, 4, 4>(8000, 3500, 2, true, 0, {12}, {100, 256, 32768, 70000}); });
	scenario("streaming levels", []() { for (int level : {-80, -60, -30, -15, 20, 60, 80}) { longrun<float, float, 5, 4>(200, 1300, level); longrun<double, double, 4, 8>(200, 1300, level); } });
	scenario("long streaming runs", []() { longrun<double, double, 3, 4>(mc::pick(2000, 100000, 1000000), 2300); });
	L_(double, cd, 9, 8) L_(float, cf, 8, 5) // exotic
}
