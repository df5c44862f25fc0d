// C33: FM demodulators
#include "mc.hh"
#include "const.hh"
#include "complex.hh"
#include "fmd.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static const ld PI = acosl(-1);
static double worst;

struct Ref { cld p1 = 1, p2 = 1; ld bw = 0; }; // no bandwidth yet: output zero

template <class F, class V>
void input(F &f, Ref &r, cld x, int which)
{
	V y = f(DSP::Complex<V>(V(x.real()), V(x.imag())));
	const ld scale = r.bw == 0 ? 0 : 1 / (PI * r.bw);
	ld want, turn = 0, mag = PI;
	if (which <= 3) {
		want = std::arg(x * std::conj(r.p1));
		if (std::abs(want) > 3.14L) turn = 2 * PI; // half a turn may round to either sign
	} else if (which == 4) {
		want = (std::conj(r.p1) * x).imag() / std::norm(x);
		mag += sqrtl(std::norm(r.p1) / std::norm(x));
	} else {
		cld d = x - r.p2;
		want = (std::conj(r.p1) * d).imag() / std::norm(r.p1) / 2;
		mag += sqrtl((std::norm(x) + std::norm(r.p2)) / std::norm(r.p1));
	}
	ld tol = 16 * (ld)mc::eps<V>() * scale * mag, d = std::abs((ld)y - scale * want);
	if (turn > 0) d = min(d, min(std::abs((ld)y - scale * (want - turn)), std::abs((ld)y - scale * (want + turn))));
	if (tol > 0) worst = max(worst, (double)(d / tol));
	MC_CHECK(mc::finite_bits(y) && d <= tol, "output %.9g instead of %.9g", (double)y, (double)(scale * want));
	if (which <= 3) MC_CHECK(std::abs((ld)y) <= scale * PI * (1 + 16 * (ld)mc::eps<V>()), "output %.9g outside of half a turn", (double)y);
	r.p2 = r.p1;
	r.p1 = x;
	mc::outcome(mc::mix(mc::bits((double)want), mc::bits((double)scale)));
}
template <class F, class V>
void sequences(int which, int depth, const std::vector<cld> &points)
{
	static mc::Dfs<F, Ref> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	for (cld x : points) dfs.ops.push_back({str("in(%g,%g)", (double)x.real(), (double)x.imag()), [=](F &f, Ref &r) { input<F, V>(f, r, x, which); }});
	for (double b : {0.5, 2.0}) dfs.ops.push_back({str("bandwidth(%g)", b), [=](F &f, Ref &r) { f.bandwidth(V(b)); r.bw = b; }});
	dfs.run(depth, Ref());
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// every step from angle i/N to angle j/N with a large and a small amplitude
template <class F, class V>
void angles(int which, int N)
{
	static mc::Arena<F> arena;
	int i, j, k;
	ld ai, aj;
	mc::describe = [&] { return str("angles %d/%d, %d/%d, %d/%d, amplitudes %g and %g", i, N, j, N, k, N, (double)ai, (double)aj); };
	const ld e = mc::eps<V>();
	for (ld amp : {1.L, 1000.L, 0.03125L}) for (ld ratio : {1.L, 3.L, 0.25L}) for (i = 0; i < N; ++i) for (j = 0; j < N; ++j) {
		ai = amp; aj = amp * ratio;
		auto point = [&](int m, ld a) { return DSP::Complex<V>(V(a * cosl(2 * PI * m / N)), V(a * sinl(2 * PI * m / N))); };
		F &f = arena.make(0x4B);
		f.bandwidth(V(1));
		k = (2 * j - i + N) % N;
		DSP::Complex<V> p = point(i, ai), q = point(j, aj), s = point(k, ai);
		auto c = [](DSP::Complex<V> z) { return cld((ld)z.real(), (ld)z.imag()); };
		f(p);
		V y = f(q);
		ld want, tol = 16 * e, d;
		if (which <= 3) {
			want = std::arg(c(q) * std::conj(c(p))) / PI;
			d = std::abs((ld)y - want);
			if (std::abs(want) > 1 - 16 * e) d = min(d, min(std::abs((ld)y - want - 2), std::abs((ld)y - want + 2)));
			tol = 8 * e;
		} else if (which == 4) {
			want = (std::conj(c(p)) * c(q)).imag() / std::norm(c(q)) / PI;
			d = std::abs((ld)y - want);
			tol *= 1 + 1 / ratio;
		} else {
			y = f(s);
			want = (std::conj(c(q)) * (c(s) - c(p))).imag() / std::norm(c(q)) / (2 * PI);
			d = std::abs((ld)y - want);
			tol *= 1 + 1 / ratio;
		}
		worst = max(worst, (double)(d / tol));
		MC_CHECK(mc::finite_bits(y) && d <= tol, "output %.9g instead of %.9g", (double)y, (double)want);
		mc::step();
		++mc::res.states;
		++mc::res.traces;
		if (amp == 1) mc::outcome(mc::mix(i * N + j, mc::bits((double)ratio)));
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	mc::describe = nullptr;
}
// every step close to half a turn
template <class F, class V>
void wraps(int N)
{
	static mc::Arena<F> arena;
	int i, k, side;
	mc::describe = [&] { return str("from angle %d/%d by half a turn %+d * 2^-%d", i, N, side, k); };
	const ld e = mc::eps<V>();
	const int last = sizeof(V) == 4 ? 18 : 45;
	for (i = 0; i < N; ++i) for (k = 1; k <= last; ++k) for (side = -1; side <= 1; side += 2) for (ld ratio : {1.L, 3.L}) {
		ld a = 2 * PI * i / N, b = a + PI + side * std::ldexp((ld)1, -k);
		DSP::Complex<V> p(V(cosl(a)), V(sinl(a))), q(V(ratio * cosl(b)), V(ratio * sinl(b)));
		F &f = arena.make(0x4B);
		f.bandwidth(V(1));
		f(p);
		V y = f(q);
		ld want = std::arg(cld((ld)q.real(), (ld)q.imag()) * std::conj(cld((ld)p.real(), (ld)p.imag()))) / PI, d = std::abs((ld)y - want);
		if (std::abs(want) > 1 - 16 * e) d = min(d, min(std::abs((ld)y - want - 2), std::abs((ld)y - want + 2)));
		MC_CHECK(mc::finite_bits(y) && d <= 8 * e, "output %.9g instead of %.9g", (double)y, (double)want);
		mc::step();
		++mc::res.states;
		++mc::res.traces;
		mc::outcome(mc::mix(i * 64 + k, side + 1));
	}
	mc::describe = nullptr;
}
template <class F, class V>
void longrun(int which, const std::vector<cld> &points, int steps, int level = 0)
{
	static mc::Arena<F> arena;
	F &f = arena.make(0x4B);
	Ref r;
	int t = 0;
	mc::describe = [&] { return str("level %d, step %d", level, t); };
	f.bandwidth(V(0.5));
	r.bw = 0.5L;
	for (; t < steps; ++t) {
		input<F, V>(f, r, points[t * 7919LL % 101 % points.size()] * std::ldexp((ld)1, level), which);
		mc::step();
		++mc::res.states;
	}
	++mc::res.traces;
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	const std::vector<cld> points = {{1, 0}, {0, 2}, {-3, 0}, {0, -1}, {0.5L, 0.5L}, {-2, 1}, {-1, -0.25L}, {3, -4}};
	const int d = mc::pick(4, 5, 6), n = mc::pick(16, 64, 160);
#define F_(I, T) \
	scenario("FMD" #I " sequences " #T, [=]() { sequences<DSP::FMD##I<DSP::Complex<T>>, T>(I, d, points); }); \
	scenario("FMD" #I " long run " #T, [=]() { longrun<DSP::FMD##I<DSP::Complex<T>>, T>(I, points, mc::pick(2000, 150000, 1000000)); }); \
	scenario("FMD" #I " levels " #T, [=]() { for (int level : {-50, -25, -12, 10, 25, 50}) longrun<DSP::FMD##I<DSP::Complex<T>>, T>(I, points, 500, level); }); \
	scenario("FMD" #I " angles " #T, [=]() { angles<DSP::FMD##I<DSP::Complex<T>>, T>(I, n); angles<DSP::FMD##I<DSP::Complex<T>>, T>(I, n - 5); });
	F_(1, float) F_(2, float) F_(3, float) F_(4, float) F_(5, float)
	scenario("wraps", []() {
		wraps<DSP::FMD1<DSP::Complex<float>>, float>(36); wraps<DSP::FMD1<DSP::Complex<double>>, double>(36);
		wraps<DSP::FMD2<DSP::Complex<float>>, float>(36); wraps<DSP::FMD2<DSP::Complex<double>>, double>(36);
		wraps<DSP::FMD3<DSP::Complex<float>>, float>(36); wraps<DSP::FMD3<DSP::Complex<double>>, double>(36);
	});
	F_(1, double) F_(2, double) F_(3, double) F_(4, double) F_(5, double)
}
