// C32: Fs/4 down conversion and Hilbert transform against their FIR definitions
#include "mc.hh"
#include "const.hh"
#include "complex.hh"
#include "cdc.hh"
#include "hilbert.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static const ld PI = acosl(-1);
static double worst;

static ld bessel(ld x)
{
	ld sum = 1, t = 1;
	for (int m = 1; m < 200; ++m) { t *= (x / (2 * m)) * (x / (2 * m)); sum += t; }
	return sum;
}
static ld kaiser(ld a, int d, int taps) // d: offset from the centre
{
	ld x = d / ((taps - 1) / (ld)2);
	return bessel(PI * a * sqrtl(max(0.L, 1 - x * x))) / bessel(PI * a);
}
// input history of real samples, x[n] = 0 for n < 0
struct Ref {
	std::vector<ld> x;
	ld at(int n) const { return n < 0 ? 0 : x[n]; }
};
struct Kernel { int c; std::vector<ld> h; }; // h[c + d]
static Kernel halfband(int taps, ld a)
{
	Kernel k{(taps - 1) / 2, std::vector<ld>(taps)};
	for (int d = -k.c; d <= k.c; ++d) k.h[k.c + d] = kaiser(a, d, taps) * (d == 0 ? 0.5L : d % 2 == 0 ? 0 : (((d < 0 ? -d : d) % 4 == 1 ? 1 : -1) / (PI * (d < 0 ? -d : d))));
	return k;
}
static Kernel transformer(int taps, ld a)
{
	Kernel k{(taps - 1) / 2, std::vector<ld>(taps)};
	for (int d = -k.c; d <= k.c; ++d) k.h[k.c + d] = d % 2 ? kaiser(a, d, taps) * 2 / (PI * d) : 0;
	return k;
}
// samples turned by -90 degrees each, starting at 90; output of the filter centred on the odd sample (taps-1)/2 - 1 before the newest
static cld cdc(const Kernel &k, const Ref &r)
{
	static const cld turn[4] = {cld(0, 1), cld(1, 0), cld(0, -1), cld(-1, 0)};
	const int newest = r.x.size() - 1, centre = newest - k.c;
	cld sum = 0;
	for (int d = -k.c; d <= k.c; ++d) {
		int n = centre - d;
		if (n >= 0 && n <= newest) sum += k.h[k.c + d] * r.x[n] * turn[n % 4];
	}
	return sum;
}
static cld hilbert(const Kernel &k, const Ref &r)
{
	const int newest = r.x.size() - 1, centre = newest - 1 - k.c;
	ld im = 0;
	for (int d = -k.c; d <= k.c; ++d) {
		int n = centre - d;
		if (n >= 0 && n <= newest) im += k.h[k.c + d] * r.x[n];
	}
	return cld(centre >= 0 ? r.x[centre] : 0, im);
}
template <class V>
void compare(DSP::Complex<V> y, cld want, ld scale, int taps, ld a)
{
	cld got((ld)y.real(), (ld)y.imag());
	ld tol = (8 + 4 * a + taps / 8) * (ld)mc::eps<V>() * scale, d = std::abs(got - want);
	worst = max(worst, (double)(d / tol));
	MC_CHECK(mc::finite_bits(y.real()) && mc::finite_bits(y.imag()) && d <= tol, "output (%.9g,%.9g) instead of (%.9g,%.9g)", (double)got.real(), (double)got.imag(), (double)want.real(), (double)want.imag());
}
static const std::vector<double> params = {-1, 0, 0.5, 1, 2, 3}; // negative: default
template <class F, class V> void construct(mc::Arena<F> &arena, int poison, double a) { if (a < 0) arena.make(poison); else arena.make(poison, V(a)); }
static ld param(double a) { return a < 0 ? 2 : a; }

template <class V, int TAPS>
void sequences(int depth)
{
	typedef DSP::CDC<DSP::Complex<V>, TAPS> C;
	typedef DSP::Hilbert<DSP::Complex<V>, TAPS> H;
	for (double a : {-1.0, 0.5}) {
		mc::Dfs<C, Ref> dc;
		const Kernel k = halfband(TAPS, param(a)), t = transformer(TAPS, param(a));
		dc.make = [=](mc::Arena<C> &arena, int poison) { construct<C, V>(arena, poison, a); };
		for (auto in : {std::pair<int, int>{1, 0}, {0, 1}, {-2, 3}, {0, 0}}) dc.ops.push_back({str("in(%d,%d)", in.first, in.second), [=](C &f, Ref &r) {
			r.x.push_back(in.first);
			r.x.push_back(in.second);
			cld want = cdc(k, r);
			compare<V>(f(V(in.first), V(in.second)), want, 4, TAPS, param(a));
			mc::outcome(mc::mix(mc::bits((double)want.real()), mc::bits((double)want.imag())));
		}});
		dc.run(depth, Ref());
		mc::Dfs<H, Ref> dh;
		dh.make = [=](mc::Arena<H> &arena, int poison) { construct<H, V>(arena, poison, a); };
		for (int in : {0, 1, -3}) dh.ops.push_back({str("in(%d)", in), [=](H &f, Ref &r) {
			r.x.push_back(in);
			cld want = hilbert(t, r);
			compare<V>(f(V(in)), want, 4, TAPS, param(a));
			mc::outcome(mc::mix(mc::bits((double)want.real()), mc::bits((double)want.imag())));
		}});
		dh.run(depth + 1, Ref());
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// impulses at every phase and position, then a dense signal, long enough to pass through
template <class V, int TAPS>
void responses()
{
	typedef DSP::CDC<DSP::Complex<V>, TAPS> C;
	typedef DSP::Hilbert<DSP::Complex<V>, TAPS> H;
	static mc::Arena<C> ac;
	static mc::Arena<H> ah;
	std::string what;
	mc::describe = [&] { return what; };
	for (double a : params) {
		const Kernel k = halfband(TAPS, param(a)), t = transformer(TAPS, param(a));
		for (int sig = 0; sig < 6; ++sig) {
			const int len = 2 * (2 * TAPS + 6);
			auto x = [&](int n) -> ld {
				if (sig < 4) return n == sig;
				if (sig == 4) return (n * 37 % 29 - 14) / (ld)8;
				return n % 3 == 0 ? 1 : -1;
			};
			construct<C, V>(ac, 0x4B, a);
			construct<H, V>(ah, 0x4B, a);
			Ref r, q;
			for (int n = 0; n < len; n += 2) {
				what = str("CDC of %d taps, alpha %g, signal %d, pair %d", TAPS, a, sig, n / 2);
				r.x.push_back(x(n));
				r.x.push_back(x(n + 1));
				cld want = cdc(k, r);
				compare<V>(ac.get()(V(x(n)), V(x(n + 1))), want, 4, TAPS, param(a));
				mc::step();
				++mc::res.states;
				mc::outcome(mc::mix(mc::bits((double)want.real()), mc::bits((double)want.imag())));
			}
			for (int n = 0; n < len; ++n) {
				what = str("Hilbert of %d taps, alpha %g, signal %d, sample %d", TAPS, a, sig, n);
				q.x.push_back(x(n));
				cld want = hilbert(t, q);
				compare<V>(ah.get()(V(x(n))), want, 4, TAPS, param(a));
				mc::step();
				++mc::res.states;
			}
			mc::res.traces += 2;
		}
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	mc::describe = nullptr;
}
// the same for a long time, the cursors wrap many times
template <class V, int TAPS>
void longrun(int len, int level = 0)
{
	const ld scale = std::ldexp((ld)1, level);
	typedef DSP::CDC<DSP::Complex<V>, TAPS> C;
	typedef DSP::Hilbert<DSP::Complex<V>, TAPS> H;
	static mc::Arena<C> ac;
	static mc::Arena<H> ah;
	const Kernel k = halfband(TAPS, 2), h = transformer(TAPS, 2);
	C &c = ac.make(0x4B);
	H &f = ah.make(0x4B);
	Ref r, q;
	int t = 0;
	mc::describe = [&] { return str("%d taps, level %d, step %d", TAPS, level, t); };
	auto x = [=](int n) { return (n * 37LL % 1009 % 29 - 14) / (ld)8 * scale; };
	for (; t < len; ++t) {
		r.x.push_back(x(2 * t));
		r.x.push_back(x(2 * t + 1));
		q.x.push_back(x(t));
		cld want = cdc(k, r);
		compare<V>(c(V(x(2 * t)), V(x(2 * t + 1))), want, 4 * scale, TAPS, 2);
		mc::step();
		mc::outcome(mc::mix(mc::bits((double)want.real()), mc::bits((double)want.imag())));
		want = hilbert(h, q);
		compare<V>(f(V(x(t))), want, 4 * scale, TAPS, 2);
		mc::step();
		mc::outcome(mc::mix(mc::bits((double)want.real()), mc::bits((double)want.imag())));
		++mc::res.states;
	}
	mc::res.traces += 2;
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	const int d = mc::pick(4, 7, 8);
#define S_(T) \
	scenario("sequences " #T " 5", [=]() { sequences<T, 5>(d); }); \
	scenario("sequences " #T " 9", [=]() { sequences<T, 9>(d); }); \
	scenario("sequences " #T " 13", [=]() { sequences<T, 13>(d); });
	S_(float) S_(double)
	scenario("levels", []() { for (int level : {-80, -60, -30, -15, 20, 60, 80}) { longrun<float, 9>(300, level); longrun<double, 13>(300, level); } });
	scenario("long runs", []() { int n = mc::pick(2000, 150000, 1000000); longrun<float, 5>(n); longrun<double, 9>(n); longrun<float, 21>(n); longrun<double, 33>(n); });
#define R_(N) \
	scenario("responses float " #N, []() { responses<float, N>(); }); \
	scenario("responses double " #N, []() { responses<double, N>(); });
	R_(5) R_(9) R_(13) R_(17) R_(21) R_(25) R_(29) R_(33) R_(37) R_(65) R_(129)
	if (!mc::san) { R_(257) R_(513) }
}
