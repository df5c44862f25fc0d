// Every class and function family of the library as an actor: construction and a few calls whose results are logged
#pragma once
#include "mc.hh"
#include "const.hh"
#include "complex.hh"
#include "utils.hh"
#include "amd.hh"
#include "atan2.hh"
#include "bip_buffer.hh"
#include "biquad.hh"
#include "blockdc.hh"
#include "calculus.hh"
#include "cdc.hh"
#include "coeffs.hh"
#include "cordic.hh"
#include "decibel.hh"
#include "delay.hh"
#include "deque.hh"
#include "ema.hh"
#include "exp.hh"
#include "fft.hh"
#include "fdzp.hh"
#include "filter.hh"
#include "fmd.hh"
#include "hilbert.hh"
#include "kahan.hh"
#include "lms.hh"
#include "movext.hh"
#include "netpbm.hh"
#include "normalize.hh"
#include "phasor.hh"
#include "quick.hh"
#include "regression.hh"
#include "repeated_median.hh"
#include "resampler.hh"
#include "sma.hh"
#include "spline.hh"
#include "stack.hh"
#include "swa.hh"
#include "theil_sen.hh"
#include "trigger.hh"
#include "unit_circle.hh"
#include "wav.hh"
#include "window.hh"

namespace act {

struct Log {
	double v[400];
	int n = 0;
	void operator()(double x) { if (n < 400) v[n++] = x; }
	template <class T> void operator()(DSP::Complex<T> z) { (*this)((double)z.real()); (*this)((double)z.imag()); }
};
// inputs: salt distinguishes the users
inline float in(int t, int salt) { return ((t * 7 + salt * 5 + 3) % 11 - 5) * 0.25f + salt * 0.125f + 0.0625f; }
typedef DSP::Complex<float> C;
inline C cin(int t, int salt) { return C(in(t, salt), in(t + 3, salt + 1)); }

struct Actor {
	const char *name;
	size_t size;
	void (*make)(void *, int salt);
	void (*call)(void *, int t, int salt, Log &);
	void (*copy)(void *dst, void *src); // null: not copyable
	void (*assign)(void *dst, void *src);
	void (*destroy)(void *);
	bool file;
};
const int CALLS = 4;

template <class A>
Actor actor(const char *name, bool file = false)
{
	typedef typename A::Obj O;
	Actor a = {};
	a.name = name;
	a.size = sizeof(O);
	a.make = [](void *p, int salt) { A::make(p, salt); };
	a.call = [](void *p, int t, int salt, Log &log) { A::call(*(O *)p, t, salt, log); };
	if constexpr (std::is_copy_constructible<O>::value) a.copy = [](void *d, void *s) { new (d) O(*(const O *)s); };
	if constexpr (std::is_copy_assignable<O>::value) a.assign = [](void *d, void *s) { *(O *)d = *(const O *)s; };
	a.destroy = [](void *p) { ((O *)p)->~O(); };
	a.file = file;
	return a;
}
struct None { char c = 0; };

// NAME, object type, constructor arguments (using salt), body using o, t, salt, log, x = in(t, salt), z = cin(t, salt)
#define ACTOR(NAME, TYPE, ARGS, ...) \
	struct NAME { \
		typedef mc_unparen TYPE Obj; \
		static void make(void *p, int salt) { (void)salt; new (p) Obj ARGS; } \
		static void call(Obj &o, int t, int salt, Log &log) { const float x = in(t, salt); const C z = cin(t, salt); (void)x; (void)z; (void)o; __VA_ARGS__ } \
	};
#define mc_unparen(...) __VA_ARGS__

ACTOR(Amd, (DSP::AMD1<C>), (), if (t == 0) { o.agc(0.5f, 0.25f + 0.125f * salt); o.index(0.5f + salt); } log(o(z));)
ACTOR(Bip, (DSP::BipBuffer<float, 3>), (), const float *h = o(x); for (int i = 0; i < 3; ++i) log(h[i]);)
ACTOR(Biq, (DSP::Biquad<float, float>), (), if (t % 2 == 0) o.lowpass(1 + salt, 10); else o.notch(2 + salt, 11, 1.f); log(o(x));)
ACTOR(Biq2, (DSP::Biquad<C, float>), (), if (t == 0) o.bandpass(1 + salt, 9, 1.f + salt); if (t == 2) o.allpass(1 + salt, 9, 1.f); if (t == 3) o.highpass(1, 5 + salt); log(o(z));)
ACTOR(BiqC, (DSP::BiquadCascade<float, float, 3>), (), if (t == 0) o.lowpass(1 + salt, 10); if (t == 2) o.highpass(1 + salt, 12); log(o(x));)
ACTOR(Block, (DSP::BlockDC<float, float>), (), if (t == 1) o.samples(3 + salt); log(o(x));)
ACTOR(Integ, (DSP::Integrator<float>), (1.f + salt), log(o(x));)
ACTOR(Diff, (DSP::Differentiator<float>), (1.f + salt), log(o(x));)
ACTOR(Cdc, (DSP::CDC<C, 9>), (1.f + salt), log(o(x, in(t + 5, salt)));)
struct CoeffObj { DSP::Kaiser<float> k; DSP::LowPass<float> l; DSP::Coeffs<7, float> c; CoeffObj(int salt) : k(1.f + salt), l(0.1f + 0.05f * salt), c(&l, &k) {} };
ACTOR(Coeff, (CoeffObj), (salt), if (t == 2) o.c.normalize(); for (int i = -1; i < 8; ++i) log(o.c(i));)
ACTOR(Delayed, (DSP::Delay<float, 3>), (1.f + salt), log(o(x));)
ACTOR(Deq, (DSP::Deque<float, 3>), (), if (o.full()) o.pop_front(); if (t % 2) o.push_front(x); else o.push_back(x); log(o.front()); log(o.back()); log(o.size());)
ACTOR(Ema, (DSP::EMA<float, float>), (0.5f * salt, 0.75f), if (t == 1) o.cutoff(1 + salt, 9); if (t == 3) o.samples(2 + salt); log(o(x));)
ACTOR(EmaC, (DSP::EMACascade<C, float, 3>), (), if (t == 1) o.cutoff(5 + salt, 90); log(o(z));)
template <int N> struct FftObj { DSP::FastFourierTransform<N, C, -1> f; DSP::FastFourierTransform<N, C, 1> b; };
#define FFT_(N) ACTOR(Fft##N, (FftObj<N>), (), C a[N]; C b[N]; for (int i = 0; i < N; ++i) a[i] = cin(i * (t + 1), salt); if (t % 2) o.f(b, a); else o.b(b, a); for (int i = 0; i < N && i < 24; ++i) log(b[i]);)
FFT_(8) FFT_(15) FFT_(16) FFT_(64) FFT_(77)
ACTOR(Rfft, (DSP::RealToHalfComplexTransform<32, C>), (), float a[32]; C b[17]; for (int i = 0; i < 32; ++i) a[i] = in(i * (t + 1), salt); o(b, a); for (int i = 0; i < 17; ++i) log(b[i]);)
ACTOR(Fdzp, (DSP::FDZP<16, 6, C>), (), C a[6]; C b[16]; for (int i = 0; i < 6; ++i) a[i] = cin(i * (t + 1), salt); o(b, a); for (int i = 0; i < 16; ++i) log(b[i]);)
ACTOR(Fm1, (DSP::FMD1<C>), (), if (t == 0) o.bandwidth(0.5f + salt); log(o(z));)
ACTOR(Fm2, (DSP::FMD2<C>), (), if (t == 0) o.bandwidth(0.5f + salt); log(o(z));)
ACTOR(Fm3, (DSP::FMD3<C>), (), if (t == 0) o.bandwidth(0.5f + salt); log(o(z));)
ACTOR(Fm4, (DSP::FMD4<C>), (), if (t == 0) o.bandwidth(0.5f + salt); log(o(z));)
ACTOR(Fm5, (DSP::FMD5<C>), (), if (t == 0) o.bandwidth(0.5f + salt); log(o(z));)
ACTOR(Hilb, (DSP::Hilbert<C, 5>), (1.f + salt), log(o(x)); log(o(in(t + 5, salt)));)
ACTOR(Kah, (DSP::Kahan<float>), (16777216.f * (1 + salt)), log(o(0.75f + salt) - 16777216.f * (1 + salt)); log(o(x) - 16777216.f * (1 + salt)); log(o.same(x * 1e-9f)); float a[3] = {x, 2 * x, 1e-6f}; log(DSP::kahan_sum(a, a + 3, 1.f)); log(o());)
ACTOR(Nlms, (DSP::NLMS<float, 3>), (), log(o(x, in(t + 2, salt), 0.5f)); const float *w = o; for (int i = 0; i < 3; ++i) log(w[i]);)
ACTOR(Nclms, (DSP::NCLMS<C, 3>), (), log(o(z, cin(t + 2, salt), 0.5f)); const C *w = o; for (int i = 0; i < 3; ++i) log(w[i]);)
ACTOR(Mmin, (DSP::MovMin<float, 3>), (), log(o(x));)
ACTOR(Mmax, (DSP::MovMax<int, 3>), (), log(o(int(4 * x)));)
ACTOR(NormS, (DSP::NormalizeSine<float>), (), if (t == 0) o.samples(3 + salt); log(o(x));)
ACTOR(NormIQ, (DSP::NormalizeIQ<C>), (), if (t == 0) o.samples(3 + salt); log(o(z));)
ACTOR(Phas, (DSP::Phasor<C>), (), if (t == 0) o.omega(1 + salt, 7); if (t == 2) o.freq(0.1f + 0.1f * salt); log(o()); log(o());)
ACTOR(Regr, (DSP::SimpleLinearRegression<float>), (), float a[6]; float b[6]; for (int i = 0; i < 6; ++i) { a[i] = i + 0.25f * (salt + t); b[i] = in(i * (t + 1), salt); } o = t % 2 ? DSP::SimpleLinearRegression<float>(a, b, 6) : DSP::SimpleLinearRegression<float>(b, 6, 0.5f, 1.f + salt); log(o(1.5f)); log(o.slope()); log(o.yint());)
#define ROBUST_(NAME, TYPE) ACTOR(NAME, (TYPE<float, 9>), (), float a[9]; float b[9]; for (int i = 0; i < 9; ++i) { a[i] = i + 0.25f * salt; b[i] = in(i * (t + 1), salt) + 0.01f * i; } o.compute(a, b, 9 - t % 2); log(o.slope()); log(o.yint()); log(o(2.f));)
ROBUST_(Theil, DSP::TheilSenEstimator) ROBUST_(Rep, DSP::RepeatedMedianEstimator) ROBUST_(Rep2, DSP::RepeatedMedianEstimator2)
ACTOR(Resamp, (DSP::Resampler<float, 5, 4>), (8000.f, 3000.f + 300 * salt, 1.5f), float a[16]; float b[16]; for (int i = 0; i < 16; ++i) { a[i] = in(i * (t + 1), salt); b[i] = 0; } o(b, (const float *)a, 500.f * (t + salt), 16); for (float y : b) log(y);)
ACTOR(Resamp2, (DSP::Resampler2<float, C, 5, 4>), (8000.f, 3000.f + 300 * salt, 1.5f), C b[4]; int n = o(b, z, 700.f * (salt ? -1 : 1) * t); log(n); for (int i = 0; i < n; ++i) log(b[i]);)
ACTOR(Sma1, (DSP::SMA1<float, float, 3>), (), log(o(x)); log(o.abs_dev());)
ACTOR(Sma2, (DSP::SMA2<float, float, 3>), (), log(o(x));)
ACTOR(Sma3, (DSP::SMA3<float, float, 3>), (), log(o(x));)
ACTOR(Sma4, (DSP::SMA4<float, float, 3>), (), log(o(x));)
struct SplineObj { DSP::UniformNaturalCubicSpline<6, float, float> s; SplineObj(int salt) { float y[6]; for (int i = 0; i < 6; ++i) y[i] = in(i, salt); s = DSP::UniformNaturalCubicSpline<6, float, float>(y, 0.5f, 1.f + salt); } };
ACTOR(Spl, (SplineObj), (salt), log(o.s(x)); log(o.s(3 * x)); float a[5]; float b[5]; for (int i = 0; i < 5; ++i) { a[i] = i + 0.125f * salt; b[i] = in(i + t, salt); } typedef DSP::CubicHermiteSpline<float, float> H; log(H::eval((const float *)a, (const float *)b, x, 5)); log(H::eval((const float *)b, x, 5, 0.f, 1.f));)
ACTOR(Stk, (DSP::Stack<float, 3>), (), if (o.full()) { o.pop(); o.pop(); } o.push(x); log(o.top()); log(o.first()); log(o.size());)
struct Add { float operator()(float a, float b) const { return a + b; } };
ACTOR(Swa_, (DSP::SWA<float, Add, 5>), (0.f), log(o(x));)
ACTOR(Schmitt, (DSP::SchmittTrigger<float>), (0.3f + 0.1f * salt, bool(salt)), log(o(x)); log(o(-x));)
struct Edges { DSP::RisingEdgeTrigger r; DSP::FallingEdgeTrigger f; };
ACTOR(Edge, (Edges), (), log(o.r(x > 0)); log(o.f(x > 0));)
// functions
ACTOR(Sort, (None), (), float a[40]; for (int i = 0; i < 40; ++i) a[i] = in(i * (t + 3), salt) * (1 + i % 7); DSP::quick_sort(a, 40); for (float y : a) log(y); for (int i = 0; i < 40; ++i) a[i] = in(i * (t + 2), salt) * (1 + i % 5); log(DSP::quick_select(a, 7 + t, 40));)
ACTOR(Angles, (None), (), log(DSP::atan2(x, in(t + 1, salt))); log(DSP::atan2((double)x, (double)in(t + 2, salt))); log(arg(z)); log(abs(z)); log(norm(z)); log(conj(z)); log(z / cin(t + 1, salt)); log(z * cin(t + 4, salt));)
ACTOR(Circle, (None), (), for (int i = 0; i < 5; ++i) { log(DSP::UnitCircle<float>::cos(i + t + salt, 12 + salt)); log(DSP::UnitCircle<float>::sin(i + t + salt, 12 + salt)); log(DSP::UnitCircle<double>::sin(i + t, 7 + salt)); })
ACTOR(Levels, (None), (), log(DSP::decibel(1.f + t + salt)); log(DSP::idecibel(x)); log(DSP::exp10((double)x)); log(DSP::decibel(0.5 + t));)
ACTOR(Windows, (None), (), for (int n = 0; n < 6; ++n) { log(DSP::Hann<float>()(n, 6 + salt)); log(DSP::Hamming<float>()(n, 6 + salt)); log(DSP::Lanczos<float>()(n, 6 + salt)); log(DSP::Blackman<float>()(n, 6 + salt)); log(DSP::Gauss<float>(0.5f + salt)(n, 6)); log(DSP::Kaiser<float>(1.f + salt + t)(n, 6)); log(DSP::Rect<float>()(n - 1, 4)); })
ACTOR(Filters, (None), (), for (int n = 0; n < 6; ++n) { log(DSP::LowPass<float>(0.1f + 0.1f * salt)(n, 6)); log(DSP::LowPass2<float>(1 + salt, 9)(n, 6)); log(DSP::HighPass<float>(0.1f + 0.1f * salt)(n, 6)); log(DSP::HighPass2<float>(1 + salt, 9)(n, 6)); log(DSP::BandPass<float>(0.1f, 0.2f + 0.1f * salt)(n, 6)); log(DSP::HilbertTransform<float>()(n, 6 + t)); })
ACTOR(Helpers, (None), (), log(DSP::signum(x)); log(DSP::lerp(x, 2 * x, 0.3f)); log(DSP::clamp(x, -0.5f, 0.5f)); log(DSP::sinc(x)); log(DSP::delta(x)); log(DSP::normal_pdf(x, 0.f, 1.f + salt));)
ACTOR(Cord, (None), (), log(DSP::CORDIC<int8_t>::atan2(int8_t(20 * x), int8_t(10 + t))); log(DSP::CORDIC<int16_t>::atan2(int16_t(2000 * x), int16_t(1000 - 700 * t)));)
// files, whose names are prepared beforehand
inline std::string place[2][2];
inline void prepare() { for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) place[i][j] = mc::scratch_file(mc::str("%d%d", i, j).c_str()); }
struct WavObj { DSP::WriteWAV<float> *w; WavObj(int salt) : w(new DSP::WriteWAV<float>(place[0][salt].c_str(), 8000 + salt, 8 << salt, 1 + salt)) {} ~WavObj() { delete w; } WavObj(const WavObj &) = delete; WavObj &operator=(const WavObj &) = delete; };
ACTOR(Wav, (WavObj), (salt), if (!o.w) return; float a[4]; for (int i = 0; i < 4; ++i) a[i] = in(i + t, salt); o.w->write(a, 2); o.w->silence(1); log(o.w->good()); if (t == 1) { delete o.w; o.w = nullptr; DSP::ReadWAV<float> r(place[0][salt].c_str()); log(r.rate()); log(r.bits()); log(r.channels()); log(r.frames()); float b[12]; r.read(b, 6); for (int i = 0; i < 6 * (1 + salt); ++i) log(b[i]); log(r.good()); })
struct PnmObj { DSP::WritePNM<float> *w; PnmObj(int salt) : w(new DSP::WritePNM<float>(place[1][salt].c_str(), 2, 2, salt, salt ? 1000 : 255)) {} ~PnmObj() { delete w; } PnmObj(const PnmObj &) = delete; PnmObj &operator=(const PnmObj &) = delete; };
ACTOR(Pnm, (PnmObj), (salt), if (!o.w) return; float a[6]; for (int i = 0; i < 6; ++i) a[i] = in(i + t, salt); o.w->write(a, 2); log(o.w->good()); if (t == 1) { delete o.w; o.w = nullptr; DSP::ReadPNM<float> r(place[1][salt].c_str()); log(r.width()); log(r.height()); log(r.mono()); float b[12]; r.read(b, 4); for (int i = 0; i < (salt ? 4 : 12); ++i) log(b[i]); log(r.good()); })

inline std::vector<Actor> all()
{
	return {
		actor<Amd>("Amd"), actor<Angles>("Angles"), actor<Bip>("Bip"), actor<Biq>("Biq"), actor<Biq2>("Biq2"), actor<BiqC>("BiqC"),
		actor<Block>("Block"), actor<Cdc>("Cdc"), actor<Circle>("Circle"), actor<Coeff>("Coeff"), actor<Cord>("Cord"), actor<Delayed>("Delayed"),
		actor<Deq>("Deq"), actor<Diff>("Diff"), actor<Edge>("Edge"), actor<Ema>("Ema"), actor<EmaC>("EmaC"), actor<Fdzp>("Fdzp"),
		actor<Fft15>("Fft15"), actor<Fft16>("Fft16"), actor<Fft64>("Fft64"), actor<Fft77>("Fft77"), actor<Fft8>("Fft8"), actor<Filters>("Filters"),
		actor<Fm1>("Fm1"), actor<Fm2>("Fm2"), actor<Fm3>("Fm3"), actor<Fm4>("Fm4"), actor<Fm5>("Fm5"), actor<Helpers>("Helpers"),
		actor<Hilb>("Hilb"), actor<Integ>("Integ"), actor<Kah>("Kah"), actor<Levels>("Levels"), actor<Mmax>("Mmax"), actor<Mmin>("Mmin"),
		actor<Nclms>("Nclms"), actor<Nlms>("Nlms"), actor<NormIQ>("NormIQ"), actor<NormS>("NormS"), actor<Phas>("Phas"), actor<Pnm>("Pnm", true),
		actor<Regr>("Regr"), actor<Rep>("Rep"), actor<Rep2>("Rep2"), actor<Resamp>("Resamp"), actor<Resamp2>("Resamp2"), actor<Rfft>("Rfft"),
		actor<Schmitt>("Schmitt"), actor<Sma1>("Sma1"), actor<Sma2>("Sma2"), actor<Sma3>("Sma3"), actor<Sma4>("Sma4"), actor<Sort>("Sort"),
		actor<Spl>("Spl"), actor<Stk>("Stk"), actor<Swa_>("Swa_"), actor<Theil>("Theil"), actor<Wav>("Wav", true), actor<Windows>("Windows"),
	};
}

} // namespace act
