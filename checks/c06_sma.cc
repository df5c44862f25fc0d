// C06: the four simple moving averages against the mean of the plain window
#include "mc.hh"
#include "complex.hh"
#include "sma.hh"

using mc::str;
typedef std::vector<int> Model; // last N inputs as alphabet indices, oldest first
typedef std::complex<double> C;
typedef mc::ld ld;

template <class T> C c(T v) { return C((double)v, 0); }
template <class T> C c(DSP::Complex<T> v) { return C(v.real(), v.imag()); }
template <class T> struct Real { typedef T type; static T mk(double re, double) { return T(re); } };
template <class R> struct Real<DSP::Complex<R>> { typedef R type; static DSP::Complex<R> mk(double re, double im) { return DSP::Complex<R>(re, im); } };

static double mag(C v) { return std::abs(v.real()) + std::abs(v.imag()); }

// ---- integers: exact, to a fixpoint
template <class D, class T, int N, bool NORM>
void ints(const std::vector<T> &alpha)
{
	mc::Bfs<D, Model> b;
	b.init = Model(N, -1);
	b.make = [](mc::Arena<D> &a, int poison) -> D & { return a.make(poison); };
	b.key = [](const Model &m) { std::string s("|"); for (int v : m) s += char('b' + v); return s; };
	b.check = [](D &, const Model &) {};
	for (int v = 0; v < (int)alpha.size(); ++v)
		b.ops.push_back({str("in(%lld)", (long long)alpha[v]), nullptr, [=](D &d, Model &m) {
			T out = d(alpha[v]);
			m.erase(m.begin());
			m.push_back(v);
			T sum = 0;
			for (int i : m) if (i >= 0) sum += alpha[i];
			T e = NORM ? sum / N : sum;
			MC_CHECK(out == e, "N=%d norm=%d: got %lld, expected %lld", N, NORM, (long long)out, (long long)e);
		}});
	b.max_states = mc::pick<mc::u64>(5000, 40000, 1000000);
	for (int poison : {0x00, 0x4B}) b.run(poison);
}
template <class T, int N> void all_ints(std::vector<T> alpha)
{
	ints<DSP::SMA1<T, T, N>, T, N, true>(alpha);
	ints<DSP::SMA2<T, T, N>, T, N, true>(alpha);
	ints<DSP::SMA3<T, T, N>, T, N, true>(alpha);
	ints<DSP::SMA4<T, T, N>, T, N, true>(alpha);
	ints<DSP::SMA2<T, T, N, false>, T, N, false>(alpha);
	ints<DSP::SMA3<T, T, N, false>, T, N, false>(alpha);
	ints<DSP::SMA4<T, T, N, false>, T, N, false>(alpha);
}

// ---- floating point: the four variants fed in lockstep
template <class T, int N>
struct Bank
{
	typedef typename Real<T>::type R;
	DSP::SMA1<T, R, N> a;
	DSP::SMA2<T, R, N> b;
	DSP::SMA3<T, R, N> c;
	DSP::SMA4<T, R, N> d;
	DSP::SMA2<T, R, N, false> bs;
	DSP::SMA3<T, R, N, false> cs;
	DSP::SMA4<T, R, N, false> ds;
};

template <class T, int N>
struct Ref
{
	std::vector<C> w = std::vector<C>(N, C(0, 0));
	double M = 0; // largest magnitude ever
	double S = 0; // magnitudes added and removed
	long t = 0;
};

template <class T, int N>
void feed(Bank<T, N> &k, Ref<T, N> &r, C in, bool dev)
{
	typedef typename Real<T>::type R;
	const double e = mc::eps<R>();
	T v = Real<T>::mk(in.real(), in.imag());
	in = c(v);
	r.S += mag(in) + mag(r.w[r.t % N]);
	r.w[r.t % N] = in;
	++r.t;
	r.M = max(r.M, mag(in));
	ld sr = 0, si = 0;
	double W = 0; // largest magnitude in the window
	for (auto &x : r.w) { sr += x.real(); si += x.imag(); W = max(W, mag(x)); }
	C sum(sr, si), mean = C(sr / N, si / N);
	auto ok = [&](const char *name, T got, C want, double tol) {
		C g = c(got);
		MC_CHECK(mc::finite_bits(g.real()) && mc::finite_bits(g.imag()) && mag(g - want) <= tol,
			"%s N=%d step %ld: (%.9g,%.9g) instead of (%.9g,%.9g), tolerance %.3g", name, N, r.t, g.real(), g.imag(), want.real(), want.imag(), tol);
	};
	ok("SMA1", k.a(v), mean, (N + 2) * e * W);
	ok("SMA2", k.b(v), mean, (2 * r.t + N + 2) * e * r.M);
	ok("SMA3", k.c(v), mean, (2 * r.S / N + 2 * r.M) * e);
	ok("SMA4", k.d(v), mean, (N + 2) * e * W);
	ok("SMA2 sum", k.bs(v), sum, (2 * r.t + N + 2) * N * e * r.M);
	ok("SMA3 sum", k.cs(v), sum, 2 * r.S * e + 2 * e * mag(sum));
	ok("SMA4 sum", k.ds(v), sum, (N + 2) * N * e * W);
	if (dev) {
		ld s = 0;
		for (auto &x : r.w) s += std::abs(x - mean);
		double g = k.a.abs_dev();
		MC_CHECK(mc::near(g, s / N, 3 * (N + 4) * e * W), "abs_dev N=%d step %ld: %.9g instead of %.9g", N, r.t, g, (double)(s / N));
		MC_CHECK(mc::near(k.a.abs_dev(), g, 0), "abs_dev changes when asked again");
	}
	mc::outcome(mc::mix(mc::bits(c(k.a(v)).real()), r.t)); // feeds the first variant twice, so the caller gives it a copy
}

// all periodic streams: every word over the alphabet, repeated
template <class T, int N>
void words(const std::vector<C> &alpha, int len, int repeat)
{
	std::vector<int> w;
	Ref<T, N> r;
	mc::describe = [&]() { std::string s = str("N=%d step %ld of the repeated word", N, r.t); for (int i : w) s += str(" (%.9g,%.9g)", alpha[i].real(), alpha[i].imag()); return s; };
	static mc::Arena<Bank<T, N>> arena;
	for (int l = 1; l <= len; ++l)
		mc::product(std::vector<int>(l, alpha.size()), [&](const std::vector<int> &v) {
			w = v;
			r = Ref<T, N>();
			arena.make(0x4B);
			Bank<T, N> &k = arena.get();
			MC_CHECK(k.a.abs_dev() == 0, "absolute deviation before any input");
			const int total = repeat * l;
			for (int t = 0; t < total; ++t) {
				// the first variant keeps no running state apart from its window, so a copy restores it
				auto keep = k.a;
				feed<T, N>(k, r, alpha[v[t % l]], true);
				k.a = keep;
				(void)k.a(Real<T>::mk(alpha[v[t % l]].real(), alpha[v[t % l]].imag()));
				mc::step();
			}
			mc::res.states += total;
			// flush: with the window full of zeros nothing of the past is left in SMA1 and SMA4
			T z = Real<T>::mk(0, 0);
			T o1 = z, o4 = z, o4s = z;
			for (int i = 0; i < N; ++i) { o1 = k.a(z); o4 = k.d(z); o4s = k.ds(z); mc::step(); }
			MC_CHECK(mag(c(o1)) == 0 && mag(c(o4)) == 0 && mag(c(o4s)) == 0, "N=%d: not zero after %d zeros", N, N);
			MC_CHECK(k.a.abs_dev() == 0, "absolute deviation of zeros");
			++mc::res.traces;
		});
	mc::describe = nullptr;
}

// long streams: drift must not grow with the length
template <class T, int N>
void longrun(long steps)
{
	Ref<T, N> r;
	int mode = 0;
	mc::describe = [&]() { return str("N=%d mode %d step %ld", N, mode, r.t); };
	static mc::Arena<Bank<T, N>> arena;
	for (mode = 0; mode < 4; ++mode) {
		r = Ref<T, N>();
		arena.make(0x5A);
		Bank<T, N> &k = arena.get();
		for (long t = 0; t < steps; ++t) {
			double x = 0, y = 0;
			switch (mode) {
			case 0: x = (t * 2654435761u % 1000003) / 1000003. ; y = -x * x; break;               // equidistributed
			case 1: x = t % 101 ? 0.1 + t % 7 * 0.01 : 1e6; y = 0.3; break;                        // rare large values
			case 2: x = t % 2 ? 1. / 3 : -2. / 7; y = t % 3 ? 0.1 : 1e3; break;
			case 3: x = (t >> 5) % 3 ? 1e-3 * (t % 13) : 777.77 * (t % 5); y = x; break;            // bursts
			}
			auto keep = k.a;
			feed<T, N>(k, r, C(x, y), false);
			k.a = keep;
			(void)k.a(Real<T>::mk(x, y));
			mc::step();
			++mc::res.states;
		}
		++mc::res.traces;
	}
	mc::describe = nullptr;
}

// filling a very long window: only a compensated (or tree) sum stays within a few epsilon
template <int N>
void fill()
{
	static mc::Arena<DSP::SMA3<float, float, N>> a3;
	static mc::Arena<DSP::SMA3<float, float, N, false>> a3s;
	static mc::Arena<DSP::SMA4<float, float, N>> a4;
	static mc::Arena<DSP::SMA1<double, double, N>> a1;
	static mc::Arena<DSP::SMA2<double, double, N>> a2;
	static mc::Arena<DSP::SMA2<double, double, N, false>> a2s;
	int t = 0;
	float x = 0;
	mc::describe = [&]() { return str("N=%d constant input %.9g, step %d", N, x, t); };
	for (float v : {0.1f, -0.7f, 1.1f, 3.3e4f}) {
		x = v;
		auto &s3 = a3.make(0x4B);
		auto &s3s = a3s.make(0x4B);
		auto &s4 = a4.make(0x4B);
		auto &s1 = a1.make(0x4B);
		auto &s2 = a2.make(0x4B);
		auto &s2s = a2s.make(0x4B);
		const double whole = std::floor((double)v * 8); // exact sums
		for (t = 0; t < N + N / 2; ++t) {
			double e = (double)v * min(t + 1, N), tol = 6 * mc::eps<float>() * std::abs(v) * (t + 1);
			MC_CHECK(mc::near(s3(v), e / N, tol / N), "SMA3 with N=%d at step %d", N, t);
			MC_CHECK(mc::near(s3s(v), e, tol), "SMA3 sum with N=%d at step %d", N, t);
			MC_CHECK(mc::near(s4(v), e / N, tol * 4 / N), "SMA4 with N=%d at step %d", N, t);
			double w = whole * min(t + 1, N);
			MC_CHECK(mc::near(s2(whole), w / N, 1e-12 * std::abs(w) / N), "SMA2 with N=%d at step %d", N, t);
			MC_CHECK(s2s(whole) == w, "SMA2 sum with N=%d at step %d", N, t);
			if (t < 20) MC_CHECK(mc::near(s1(whole), w / N, 1e-12 * std::abs(w) / N), "SMA1 with N=%d at step %d", N, t);
			mc::step(); mc::step(); mc::step();
			++mc::res.states;
		}
		++mc::res.traces;
		mc::outcome(mc::bits(v));
	}
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
#if PART == 0
	scenario("int states 1", []() { all_ints<int, 1>({1, -700000001, 0}); });
	scenario("int states 2", []() { all_ints<int, 2>({1, -700000001, 100}); });
	scenario("int states 3", []() { all_ints<int, 3>({1, -7, 500000003}); });
	scenario("int states 4", []() { all_ints<int, 4>({-3, 420000001}); });
	scenario("int states 5", []() { all_ints<int, 5>({-3, 350000001}); });
	scenario("int states 6", []() { all_ints<int, 6>({-3, 5}); });
	scenario("long long states 3", []() { all_ints<long long, 3>({-3, 1ll << 40, 9}); });
#endif
	static const std::vector<C> lin = {C(0, 0), C(1, -2), C(-1. / 3, 1), C(0.1, 0.7)};
	static const std::vector<C> wide = {C(0, 0), C(1. / 3, -1), C(1e8, 3), C(-1e8, 1e4), C(-12345.678, 1e-3), C(1e-3, 0)};
	static const std::vector<C> one = {C(1, 1), C(-7e6, 2), C(1e-6, -1. / 3)};
	static const auto scaled = [](std::vector<C> v, int e) { for (auto &x : v) x *= std::ldexp(1., e); return v; };
	(void)scaled;
	const int rep = MC_SAN ? 4 : 40;
	(void)rep;
#define FLT(T, N) \
	scenario("words " #T " " #N, [=]() { words<T, N>(wide, mc::pick(3, 5, 6), rep); words<T, N>(lin, mc::pick(4, 6, 7), 3); words<T, N>(one, mc::pick(4, 7, 9), rep / 4); for (int e : {-50, -20, 40}) words<T, N>(scaled(lin, e), 4, 3); }); \
	scenario("long " #T " " #N, []() { longrun<T, N>(mc::pick(20000L, 200000L, 3000000L)); });
#if PART == 1
	FLT(float, 1) FLT(float, 2) FLT(float, 3) FLT(float, 4) FLT(float, 7) FLT(float, 16)
#elif PART == 2
	FLT(double, 1) FLT(double, 3) FLT(double, 5)
	typedef DSP::Complex<float> CF;
	FLT(CF, 1) FLT(CF, 2) FLT(CF, 5) // exotic
	typedef DSP::Complex<double> CD;
	FLT(CD, 4) // exotic
	scenario("fill 20000", []() { fill<20000>(); });
	scenario("fill 131072", []() { fill<131072>(); });
	scenario("fill 300000", []() { fill<300000>(); });
	scenario("long float 100", []() { longrun<float, 100>(mc::pick(5000L, 20000L, 300000L)); });
	scenario("long double 33", []() { longrun<double, 33>(mc::pick(5000L, 20000L, 300000L)); });
	scenario("long float 1000", []() { longrun<float, 1000>(mc::pick(3000L, 6000L, 50000L)); });
#endif
}
