// C28: exponential moving averages and their cascades
#include "mc.hh"
#include "complex.hh"
#include "ema.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static const ld PI = acosl(-1);
static double worst;

// weight with half power at angle w: |a / (1 - (1 - a) z^-1)|^2 = 1/2
static ld half_power(int n, int N)
{
	ld s = sinl(PI * n / N), u = 2 * s * s; // u = 1 - cos(w), a^2 + 2 u a - 2 u = 0
	return sqrtl(u * u + 2 * u) - u;
}
struct Ref {
	std::vector<cld> prev;
	ld alpha = 1, lo = 0, hi = 0, noise = 1; // low cutoffs cost digits of the weight
	cld operator()(cld x)
	{
		lo = min(lo, x.real());
		hi = max(hi, x.real());
		for (cld &p : prev) p = x = p + alpha * (x - p);
		return x;
	}
};
template <class T, class V> struct Io {
	static T make(cld x) { return T(x.real()); }
	static cld get(T x) { return (ld)x; }
};
template <class V> struct Io<DSP::Complex<V>, V> {
	static DSP::Complex<V> make(cld x) { return DSP::Complex<V>(V(x.real()), V(x.imag())); }
	static cld get(DSP::Complex<V> x) { return cld((ld)x.real(), (ld)x.imag()); }
};
template <class T, class V, class F>
void input_ops(mc::Dfs<F, Ref> &dfs, bool cplx)
{
	for (cld x : {cld(1, -2), cld(-3, 0.5L), cld(0.25L, 4)}) {
		if (!cplx) x = x.real();
		dfs.ops.push_back({str("in(%g,%g)", (double)x.real(), (double)x.imag()), [=](F &f, Ref &r) {
			cld want = r(x), got = Io<T, V>::get(f(Io<T, V>::make(x)));
			ld tol = 48 * r.noise * (ld)mc::eps<V>(), d = std::abs(got - want);
			worst = max(worst, (double)(d / tol));
			MC_CHECK(d <= tol && d == d, "output (%.9g,%.9g) instead of (%.9g,%.9g)", (double)got.real(), (double)got.imag(), (double)want.real(), (double)want.imag());
			MC_CHECK(got.real() >= r.lo - tol && got.real() <= r.hi + tol, "output %.9g outside of %.9g to %.9g", (double)got.real(), (double)r.lo, (double)r.hi);
			mc::outcome(mc::mix(mc::bits((double)want.real()), mc::bits((double)want.imag())));
		}});
	}
}
template <class T, class V>
void single(int depth, bool cplx)
{
	typedef DSP::EMA<T, V> F;
	static mc::Dfs<F, Ref> dfs;
	input_ops<T, V>(dfs, cplx);
	for (auto c : {std::pair<int, int>{1, 8}, {1, 2}, {3, 100}}) dfs.ops.push_back({str("cutoff(%d,%d)", c.first, c.second), [=](F &f, Ref &r) { f.cutoff(c.first, c.second); r.alpha = half_power(c.first, c.second); r.noise = max(r.noise, 1 / sinl(PI * c.first / c.second)); }});
	for (int s : {1, 4, 10}) dfs.ops.push_back({str("samples(%d)", s), [=](F &f, Ref &r) { f.samples(s); r.alpha = 1 / (ld)s; }});
	struct Start { bool prev, alpha; ld p, a; };
	for (Start s : {Start{false, false, 0, 1}, Start{true, false, 2, 1}, Start{true, true, -1.5L, 0.25L}, Start{true, true, 0, 0.5L}}) {
		dfs.make = [=](mc::Arena<F> &a, int poison) {
			if (s.alpha) a.make(poison, T(V(s.p)), V(s.a));
			else if (s.prev) a.make(poison, T(V(s.p)));
			else a.make(poison);
		};
		Ref r;
		r.prev = {s.p};
		r.alpha = s.a;
		r.lo = r.hi = s.p;
		dfs.run(depth, r);
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
static const ld factor(int order) { return order == 1 ? 1 : sqrtl(powl(2, 1 / (ld)order) - 1); }

template <class T, class V, int ORDER>
void cascade(int depth, bool cplx)
{
	typedef DSP::EMACascade<T, V, ORDER> F;
	static mc::Dfs<F, Ref> dfs;
	input_ops<T, V>(dfs, cplx);
	for (auto c : {std::pair<int, int>{10, 1000}, {50, 1000}}) dfs.ops.push_back({str("cutoff(%d,%d)", c.first, c.second), [=](F &f, Ref &r) { f.cutoff(c.first, c.second); r.alpha = half_power(nearbyintl(c.first / factor(ORDER)), c.second); r.noise = max(r.noise, 1 / sinl(PI * c.first / c.second)); }});
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	Ref r;
	r.prev.assign(ORDER, 0);
	dfs.run(depth, r);
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// the weight shows in the first output; half power at the cutoff
template <class V>
void cutoffs(int top)
{
	typedef DSP::EMA<V, V> F;
	static mc::Arena<F> arena;
	int n, N;
	mc::describe = [&] { return str("cutoff(%d, %d)", n, N); };
	auto one = [&]() {
		F &f = arena.make(0x4B);
		f.cutoff(n, N);
		ld a = (ld)f(V(1)), w = 2 * PI * n / N, q = 1 - a, power = a * a / (1 - 2 * q * cosl(w) + q * q);
		ld s = sinl(w / 2), tol = 16 * (ld)mc::eps<V>() / (s * s);
		if (tol > 0.25L) return; // this type cannot resolve such a low cutoff
		ld d = std::abs(power - 0.5L);
		worst = max(worst, (double)(d / tol));
		MC_CHECK(d <= tol, "power at the cutoff %.9g, tolerance %.3g", (double)power, (double)tol);
		ld b = (ld)f(V(0));
		MC_CHECK(std::abs(b - a * q) <= 8 * (ld)mc::eps<V>(), "second output %.9g instead of %.9g", (double)b, (double)(a * q));
		mc::step();
		++mc::res.states;
		++mc::res.traces;
		mc::outcome(mc::bits((double)a));
	};
	for (N = 2; N <= top; ++N) for (n = 1; 2 * n <= N; ++n) one();
	for (int M : {8000, 44100, 48000, 1000000}) { N = M; for (n = 1; 2 * n <= N; n += 1 + n / 8) one(); }
	auto samples = [&](int s) {
		F &f = arena.make(0x4B);
		f.samples(s);
		V y = f(V(1));
		MC_CHECK(std::abs((ld)y - 1 / (ld)s) <= 2 * (ld)mc::eps<V>() / s, "samples(%d): weight %.9g", s, (double)y);
		F &g = arena.make(0x4B, V(0.1 * s));
		g.samples(s);
		V z = g(V(0.1 * s));
		MC_CHECK(std::abs((ld)z - (ld)V(0.1 * s)) <= 4 * (ld)mc::eps<V>() * 0.1L * s, "samples(%d): constant input gives %.9g", s, (double)z);
		mc::step();
		++mc::res.states;
		++mc::res.traces;
	};
	for (int s = 1; s <= 4 * top; ++s) samples(s);
	for (int s : {32767, 32768, 65535, 65536, 65537, 100000, 1000000, 16777216}) samples(s);
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	mc::describe = nullptr;
}
// half power of cascades at low cutoffs, where the correction factor is exact
template <class V, int ORDER>
void cascade_power()
{
	typedef DSP::EMACascade<V, V, ORDER> F;
	static mc::Arena<F> arena;
	struct Cut { int n, N; ld tol; };
	for (Cut c : {Cut{1000, 10000000, 2e-3L}, {10000, 10000000, 2e-4L}, {100000, 10000000, 4e-3L}, {200000, 10000000, 16e-3L}, {500000, 10000000, 8e-2L}}) {
		F &f = arena.make(0x4B);
		f.cutoff(c.n, c.N);
		// first output alpha^ORDER
		ld a = powl((ld)f(V(1)), 1 / (ld)ORDER), w = 2 * PI * c.n / c.N, q = 1 - a, power = powl(a * a / (1 - 2 * q * cosl(w) + q * q), ORDER);
		ld e = 64 * (ld)mc::eps<V>() / (w * w);
		if (e > 0.1L) continue;
		ld d = std::abs(power - 0.5L);
		worst = max(worst, (double)(d / (c.tol + e)));
		MC_CHECK(d <= c.tol + e, "order %d, cutoff(%d, %d): power at the cutoff %.9g", ORDER, c.n, c.N, (double)power);
		mc::step();
		++mc::res.states;
		++mc::res.traces;
		mc::outcome(mc::bits((double)a));
		if (mc::want_sample()) mc::sample(str("order %d cutoff(%d,%d): power %.6g", ORDER, c.n, c.N, (double)power));
	}
}
// the digits of the correction factor; the numerator is rounded to a whole number
template <int ORDER>
void cascade_digits()
{
	typedef DSP::EMACascade<double, double, ORDER> F;
	static mc::Arena<F> arena;
	for (int n : {500000, 600001, 777777, 1000000}) {
		const int N = 100000000;
		F &f = arena.make(0x4B);
		f.cutoff(n, N);
		ld a = powl((ld)f(1.), 1 / (ld)ORDER), m = n / factor(ORDER), lo = half_power(int(m) - 1, N), hi = half_power(int(m) + 2, N);
		MC_CHECK(a >= lo && a <= hi, "order %d, cutoff(%d, %d): weight %.12g not within %.12g and %.12g", ORDER, n, N, (double)a, (double)lo, (double)hi);
		mc::step();
		++mc::res.states;
		++mc::res.traces;
		mc::outcome(mc::bits((double)a));
	}
}
template <int... I> void digits(std::integer_sequence<int, I...>) { (cascade_digits<I + 1>(), ...); }
template <class V, int... I> void powers(std::integer_sequence<int, I...>) { (cascade_power<V, I + 1>(), ...); mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst)); }
template <class T, class V, class F>
void longrun(int order, int n, int N, int steps, int level = 0)
{
	const ld scale = std::ldexp((ld)1, level);
	static mc::Arena<F> arena;
	F &f = arena.make(0x4B);
	f.cutoff(n, N);
	Ref r;
	r.prev.assign(order, 0);
	r.alpha = half_power(order == 1 ? n : (int)nearbyintl(n / factor(order)), N);
	int t = 0;
	mc::describe = [&] { return str("order %d, cutoff(%d, %d), level %d, step %d", order, n, N, level, t); };
	for (; t < steps; ++t) {
		cld x((t * 37LL % 1009 % 29 - 14) / (ld)8 * scale);
		cld want = r(x), got = Io<T, V>::get(f(Io<T, V>::make(x)));
		ld tol = 48 / sinl(PI * n / N) * (ld)mc::eps<V>() * scale, d = std::abs(got - want);
		worst = max(worst, (double)(d / tol));
		MC_CHECK(d <= tol && d == d, "output (%.9g,%.9g) instead of (%.9g,%.9g)", (double)got.real(), (double)got.imag(), (double)want.real(), (double)want.imag());
		mc::step();
		++mc::res.states;
		if (t % 1024 < 64) mc::outcome(mc::bits((double)want.real()));
	}
	++mc::res.traces;
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	const int d = mc::pick(4, 6, 7), c = mc::pick(5, 7, 8);
	scenario("sequences float", [=]() { single<float, float>(d, false); });
	scenario("sequences double", [=]() { single<double, double>(d, false); });
	scenario("sequences complex float", [=]() { single<DSP::Complex<float>, float>(d - 1, true); }); // exotic
	scenario("sequences complex double", [=]() { single<DSP::Complex<double>, double>(d - 1, true); }); // exotic
	scenario("cascade sequences float 1", [=]() { cascade<float, float, 1>(c, false); });
	scenario("cascade sequences float 2", [=]() { cascade<float, float, 2>(c, false); });
	scenario("cascade sequences double 3", [=]() { cascade<double, double, 3>(c, false); });
	scenario("cascade sequences double 5", [=]() { cascade<double, double, 5>(c, false); });
	scenario("cascade sequences complex double 2", [=]() { cascade<DSP::Complex<double>, double, 2>(c - 1, true); }); // exotic
	scenario("cascade sequences complex float 4", [=]() { cascade<DSP::Complex<float>, float, 4>(c - 1, true); }); // exotic
	scenario("cascade sequences float 16", [=]() { cascade<float, float, 16>(c - 1, false); });
	scenario("long runs", []() {
		const int n = mc::pick(3000, 200000, 2000000);
		longrun<float, float, DSP::EMA<float, float>>(1, 1, 8, n);
		longrun<double, double, DSP::EMA<double, double>>(1, 3, 100, n);
		longrun<float, float, DSP::EMACascade<float, float, 2>>(2, 50, 1000, n);
		longrun<double, double, DSP::EMACascade<double, double, 3>>(3, 10, 1000, n);
		mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	});
	scenario("levels", []() {
		for (int level : {-80, -60, -30, -15, 20, 60, 80}) {
			longrun<float, float, DSP::EMA<float, float>>(1, 1, 8, 2000, level);
			longrun<double, double, DSP::EMA<double, double>>(1, 3, 100, 2000, level);
			longrun<float, float, DSP::EMACascade<float, float, 2>>(2, 50, 1000, 2000, level);
			longrun<double, double, DSP::EMACascade<double, double, 3>>(3, 10, 1000, 2000, level);
		}
	});
	scenario("cutoffs float", []() { cutoffs<float>(mc::pick(60, 500, 2000)); });
	scenario("cutoffs double", []() { cutoffs<double>(mc::pick(60, 500, 2000)); });
	scenario("cascade digits", []() { digits(std::make_integer_sequence<int, 16>()); });
	scenario("cascade cutoffs float", []() { powers<float>(std::make_integer_sequence<int, 16>()); });
	scenario("cascade cutoffs double", []() { powers<double>(std::make_integer_sequence<int, 16>()); });
}
