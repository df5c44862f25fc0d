// C29: DC blocker, integrator and differentiator against their recursions
#include "mc.hh"
#include "complex.hh"
#include "blockdc.hh"
#include "calculus.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static double worst;

struct Ref {
	cld x1 = 0, y1 = 0;
	ld a = 0, b = 0.5L;
	cld operator()(cld x) { cld y = b * (x - x1) + a * y1; x1 = x; y1 = y; return y; }
};
template <class T, class V> struct Io {
	static T make(cld x) { return T(x.real()); }
	static cld get(T x) { return (ld)x; }
};
template <class V> struct Io<DSP::Complex<V>, V> {
	static DSP::Complex<V> make(cld x) { return DSP::Complex<V>(V(x.real()), V(x.imag())); }
	static cld get(DSP::Complex<V> x) { return cld((ld)x.real(), (ld)x.imag()); }
};
template <class T, class V>
void sequences(int depth, bool cplx)
{
	typedef DSP::BlockDC<T, V> F;
	static mc::Dfs<F, Ref> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	for (cld x : {cld(1, -2), cld(-3, 0.5L), cld(100, 3)}) {
		if (!cplx) x = x.real();
		dfs.ops.push_back({str("in(%g,%g)", (double)x.real(), (double)x.imag()), [=](F &f, Ref &r) {
			cld want = r(x), got = Io<T, V>::get(f(Io<T, V>::make(x)));
			ld tol = 2000 * (ld)mc::eps<V>(), d = std::abs(got - want);
			worst = max(worst, (double)(d / tol));
			MC_CHECK(d <= tol && d == d, "output (%.9g,%.9g) instead of (%.9g,%.9g)", (double)got.real(), (double)got.imag(), (double)want.real(), (double)want.imag());
			mc::outcome(mc::mix(mc::bits((double)want.real()), mc::bits((double)want.imag())));
		}});
	}
	for (int s : {1, 2, 5, 70000}) dfs.ops.push_back({str("samples(%d)", s), [=](F &f, Ref &r) { f.samples(s); r.a = (s - 1) / (ld)s; r.b = (1 + r.a) / 2; }});
	dfs.run(depth, Ref());
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// offset removal and gain at the Nyquist frequency
template <class V>
void steady(int top)
{
	typedef DSP::BlockDC<V, V> F;
	static mc::Arena<F> arena;
	int s = 0;
	V offset = 0;
	mc::describe = [&] { return str("samples(%d), offset %g", s, (double)offset); };
	const ld e = mc::eps<V>();
	for (s = 1; s <= top; s += 1 + s / 6) for (double o : {1.0, -250.0, 0.001}) {
		offset = V(o);
		F &f = arena.make(0x4B);
		f.samples(s);
		const int steps = 40 * s + 4;
		V y = 0;
		for (int t = 0; t < steps; ++t) {
			y = f(offset);
			ld want = (ld)offset * (2 - 1 / (ld)s) / 2 * powl((s - 1) / (ld)s, t);
			MC_CHECK(std::abs((ld)y - want) <= (8 + 4 * s) * e * std::abs((ld)offset), "step %d: %.9g instead of %.9g", t, (double)y, (double)want);
			mc::step();
			++mc::res.states;
		}
		MC_CHECK(std::abs((ld)y) <= std::abs((ld)offset) * 1e-10L, "offset remains: %.9g", (double)y);
		for (int t = 0; t < steps; ++t) { y = f(offset + (t & 1 ? V(-1) : V(1))); mc::step(); ++mc::res.states; }
		ld tol = 1e-10L + (16 + 8 * s) * e * (1 + std::abs((ld)offset));
		MC_CHECK(std::abs((ld)y + 1) <= tol, "amplitude at the Nyquist frequency %.9g", (double)y);
		++mc::res.traces;
		mc::outcome(mc::mix(s, mc::bits(o)));
		if (mc::want_sample()) mc::sample(mc::describe());
	}
	mc::describe = nullptr;
}
// long histories with changing sample counts
template <class V>
void longrun(int steps, int level = 0)
{
	const ld scale = std::ldexp((ld)1, level);
	typedef DSP::BlockDC<V, V> F;
	static mc::Arena<F> arena;
	F &f = arena.make(0x4B);
	Ref r;
	const int S[] = {1, 3, 16, 100, 7, 70000, 1000, 2, 16000000};
	for (int t = 0; t < steps; ++t) {
		if (t % 97 == 0) { int s = S[t / 97 % 9]; f.samples(s); r.a = (s - 1) / (ld)s; r.b = (1 + r.a) / 2; }
		ld x = (t * 7919ll % 1021 - 500) / (ld)16 * scale;
		ld want = r(x).real(), got = (ld)f(V(x));
		MC_CHECK(std::abs(got - want) <= 4000 * (ld)mc::eps<V>() * 64 * scale, "level %d, step %d: %.9g instead of %.9g", level, t, (double)got, (double)want);
		mc::step();
		++mc::res.states;
		mc::outcome(mc::bits((double)got));
	}
	++mc::res.traces;
}
// integrator, differentiator and both chained either way
template <class T>
struct Calc {
	DSP::Integrator<T> in, id; // alone, after the differentiator
	DSP::Differentiator<T> df, di; // alone, after the integrator
	Calc(T a, T b, T c) : in(a), id(c), df(b), di(a) {}
	Calc() {}
};
struct CalcRef { __int128 sum = 0, prev = 0, first = 0, extra = 0; };
template <class T>
void calculus(int depth, std::vector<long long> alpha, std::vector<std::array<int, 2>> starts, T unit = T(1))
{
	typedef Calc<T> F;
	static mc::Dfs<F, CalcRef> dfs;
	dfs.ops.clear();
	for (long long x : alpha) dfs.ops.push_back({str("in(%lld)", x), [=](F &f, CalcRef &r) {
		r.sum += x;
		T in = T(x) * unit, s = f.in(in), d = f.df(in);
		MC_CHECK(s == T((long long)r.sum) * unit, "integrator returned %g instead of %g", (double)s, (double)(long long)r.sum);
		MC_CHECK(d == T((long long)(x - r.prev)) * unit, "differentiator returned %g instead of %g", (double)d, (double)(long long)(x - r.prev));
		r.prev = x;
		T u = f.di(s), v = f.id(d);
		MC_CHECK(u == in, "differentiating the integral gives %g instead of %lld", (double)u, x);
		MC_CHECK(v == T((long long)(x - r.first + r.extra)) * unit, "integrating the difference gives %g for %lld", (double)v, x);
		mc::outcome(mc::mix((mc::u64)r.sum, (mc::u64)x));
	}});
	for (auto st : starts) {
		bool def = st[0] == 0 && st[1] == 0;
		dfs.make = [=](mc::Arena<F> &a, int poison) { if (def) a.make(poison); else a.make(poison, T(st[0]) * unit, T(st[1]) * unit, T(st[1]) * unit); };
		CalcRef r;
		r.sum = st[0];
		r.prev = r.first = r.extra = st[1];
		dfs.run(depth, r);
	}
}
struct CplxRef { cld sum = 0, prev = 0; };
template <class V>
void complex_calculus(int depth)
{
	typedef DSP::Complex<V> T;
	typedef Calc<T> F;
	static mc::Dfs<F, CplxRef> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	for (cld x : {cld(1, 2), cld(-3, 0.5L), cld(0, -7)}) dfs.ops.push_back({str("in(%g,%g)", (double)x.real(), (double)x.imag()), [=](F &f, CplxRef &r) {
		r.sum += x;
		T in(V(x.real()), V(x.imag())), s = f.in(in), d = f.df(in), u = f.di(s), v = f.id(d);
		cld w = x - r.prev;
		MC_CHECK(s.real() == r.sum.real() && s.imag() == r.sum.imag(), "integrator returned (%g,%g)", (double)s.real(), (double)s.imag());
		MC_CHECK(d.real() == w.real() && d.imag() == w.imag(), "differentiator returned (%g,%g)", (double)d.real(), (double)d.imag());
		MC_CHECK(u.real() == in.real() && u.imag() == in.imag() && v.real() == in.real() && v.imag() == in.imag(), "chained");
		r.prev = x;
		mc::outcome(mc::mix(mc::bits((double)r.sum.real()), mc::bits((double)r.sum.imag())));
	}});
	dfs.run(depth, CplxRef());
}

void register_scenarios()
{
	using mc::scenario;
	const int d = mc::pick(5, 7, 8);
	scenario("sequences float", [=]() { sequences<float, float>(d, false); });
	scenario("sequences double", [=]() { sequences<double, double>(d, false); });
	scenario("sequences complex float", [=]() { sequences<DSP::Complex<float>, float>(d - 1, true); }); // exotic
	scenario("sequences complex double", [=]() { sequences<DSP::Complex<double>, double>(d - 1, true); }); // exotic
	scenario("steady float", []() { steady<float>(mc::pick(50, 1000, 4000)); });
	scenario("steady double", []() { steady<double>(mc::pick(50, 1000, 4000)); });
	scenario("long run float", []() { longrun<float>(mc::pick(5000, 100000, 1000000)); });
	scenario("long run double", []() { longrun<double>(mc::pick(5000, 100000, 1000000)); });
	scenario("levels", []() { for (int level : {-80, -60, -30, -15, 20, 60, 80}) { longrun<float>(1500, level); longrun<double>(1500, level); } });
	const std::vector<std::array<int, 2>> st = {{0, 0}, {5, -3}, {-100, 7}};
	const int c = mc::pick(5, 7, 8);
	scenario("calculus int", [=]() { calculus<int>(c, {-1000000, -1, 0, 3, 77}, st); });
	scenario("calculus long long", [=]() { calculus<long long>(c, {-1, 0, 3, 1ll << 40, -(1ll << 50) + 1}, st); });
	scenario("calculus unsigned", [=]() { calculus<unsigned>(c, {0, 1, 0xffffffffll, 0x80000000ll}, st); }); // exotic
	scenario("calculus float", [=]() { calculus<float>(c, {-100, -1, 0, 3, 77}, st); });
	scenario("calculus double", [=]() { calculus<double>(c, {-1000000, -1, 0, 3, 77}, st); });
	scenario("calculus levels", [=]() { for (int level : {-100, -80, -40, -20, 20, 60, 100}) { calculus<float>(c - 1, {-100, -1, 0, 3, 77}, st, std::ldexp(1.f, level)); calculus<double>(c - 1, {-1000000, -1, 0, 3, 77}, st, std::ldexp(1., 3 * level)); } });
	scenario("calculus complex float", [=]() { complex_calculus<float>(c); }); // exotic
	scenario("calculus complex double", [=]() { complex_calculus<double>(c); }); // exotic
}
