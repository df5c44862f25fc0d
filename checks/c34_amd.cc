// C34: AM demodulator under its gain control law
#include "mc.hh"
#include "const.hh"
#include "complex.hh"
#include "utils.hh"
#include "amd.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static double worst;

struct Ref { ld avg = 0, att = 0, dec = 0, lo = 0.001L, hi = 1, idx = 1, unit = 1; };

static const std::vector<cld> points = {cld(0.3L, 0.4L), cld(-0.5L, 0), cld(0, 0), cld(0.03L, -0.04L), cld(-3, -4), cld(0, 0.25L)};
template <class V>
void input(DSP::AMD1<DSP::Complex<V>> &f, Ref &r, cld x)
{
	const ld e = mc::eps<V>();
	V vr = V(x.real()), vi = V(x.imag());
	V y = f(DSP::Complex<V>(vr, vi));
	ld amp = sqrtl((ld)vr * vr + (ld)vi * vi);
	// where rounding decides which weight applies, both leave the average about where it is
	r.avg += (amp < r.avg ? r.dec : r.att) * (amp - r.avg);
	r.avg = min(max(r.avg, r.lo), r.hi);
	ld q = amp / r.avg, want = (q * (1 + r.idx) - 1) / r.idx;
	ld tol = 64 * e * (q * (1 + r.idx) + 1) / r.idx * (1 + 0.3L * r.unit / r.avg), d = std::abs((ld)y - want);
	worst = max(worst, (double)(d / tol));
	MC_CHECK(mc::finite_bits(y) && d <= tol, "output %.9g instead of %.9g", (double)y, (double)want);
	mc::outcome(mc::bits((double)want));
}
template <class V>
void sequences(int depth)
{
	typedef DSP::AMD1<DSP::Complex<V>> F;
	static mc::Dfs<F, Ref> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	for (cld x : points) dfs.ops.push_back({str("in(%g,%g)", (double)x.real(), (double)x.imag()), [=](F &f, Ref &r) { input<V>(f, r, x); }});
	for (double i : {0.5, 2.0}) dfs.ops.push_back({str("index(%g)", i), [=](F &f, Ref &r) { f.index(V(i)); r.idx = i; }});
	struct Agc { double att, dec, lo, hi; bool limits; };
	for (Agc g : {Agc{0.5, 0.125, 0.001, 1, false}, Agc{0, 1, 0.25, 0.75, true}, Agc{1, 0, 0.01, 10, true}}) dfs.ops.push_back({g.limits ? str("agc(%g,%g,%g,%g)", g.att, g.dec, g.lo, g.hi) : str("agc(%g,%g)", g.att, g.dec), [=](F &f, Ref &r) {
		if (g.limits) f.agc(V(g.att), V(g.dec), V(g.lo), V(g.hi));
		else f.agc(V(g.att), V(g.dec));
		r.att = g.att; r.dec = g.dec; r.lo = (ld)V(g.lo); r.hi = (ld)V(g.hi);
	}});
	Ref r;
	r.lo = (ld)V(0.001);
	dfs.run(depth, r);
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// the phase of the input does not matter
template <class V>
void phases(int N)
{
	typedef DSP::AMD1<DSP::Complex<V>> F;
	static mc::Arena<F> a, b;
	const ld PI = acosl(-1);
	for (double att : {0.001, 0.1, 1.0}) for (double dec : {0.001, 0.1, 1.0}) for (int step = 0; step < N; ++step) {
		F &f = a.make(0x4B), &g = b.make(0);
		f.agc(V(att), V(dec));
		g.agc(V(att), V(dec));
		f.index(V(0.8)); g.index(V(0.8));
		for (int t = 0; t < 3 * N; ++t) {
			ld amp = 0.3L + 0.2L * sinl(t * 0.3L), w = 2 * PI * step * t / N;
			V x = f(DSP::Complex<V>(V(amp), V(0))), y = g(DSP::Complex<V>(V(amp * cosl(w)), V(amp * sinl(w))));
			ld tol = 2e4L * (ld)mc::eps<V>() * (1 + std::abs((ld)x));
			worst = max(worst, (double)(std::abs((ld)x - y) / tol));
			MC_CHECK(mc::finite_bits(x) && mc::finite_bits(y) && std::abs((ld)x - y) <= tol, "attack %g decay %g, %d/%d turns per sample, step %d: %.9g and %.9g", att, dec, step, N, t, (double)x, (double)y);
			mc::step();
			++mc::res.states;
			mc::outcome(mc::bits(x));
		}
		++mc::res.traces;
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// a modulated carrier is recovered once the control has settled
template <class V>
void recover()
{
	typedef DSP::AMD1<DSP::Complex<V>> F;
	static mc::Arena<F> arena;
	const ld PI = acosl(-1);
	for (double idx : {0.25, 0.5, 0.8, 1.0}) for (double carrier : {0.01, 0.3, 0.5}) for (int N : {64, 200}) {
		F &f = arena.make(0x4B);
		f.index(V(idx));
		f.agc(V(1), V(1e-5)); // peak detector
		for (int t = 0; t < 3 * N; ++t) {
			ld m = sinl(2 * PI * t / N), amp = carrier * (1 + idx * m), w = 0.7L * t;
			V y = f(DSP::Complex<V>(V(amp * cosl(w)), V(amp * sinl(w))));
			if (t > N) MC_CHECK(std::abs((ld)y - m) < 0.02L / idx, "index %g carrier %g: %.6g instead of %.6g", idx, carrier, (double)y, (double)m);
			mc::step();
			++mc::res.states;
			mc::outcome(mc::bits(y));
		}
		++mc::res.traces;
	}
}
template <class V>
void longrun(int steps, int level = 0)
{
	const ld scale = std::ldexp((ld)1, level);
	static mc::Arena<DSP::AMD1<DSP::Complex<V>>> arena;
	auto &f = arena.make(0x4B);
	Ref r;
	int t = 0;
	mc::describe = [&] { return str("level %d, step %d", level, t); };
	if (level) f.agc(V(0.5), V(0.125), V(0.001 * scale), V(scale)); else f.agc(V(0.5), V(0.125));
	f.index(V(0.5));
	r.att = 0.5L; r.dec = 0.125L; r.idx = 0.5L; r.lo = (ld)V(level ? 0.001 * scale : 0.001); r.hi = scale; r.unit = scale;
	for (; t < steps; ++t) {
		input<V>(f, r, points[t * 7919LL % 101 % points.size()] * scale);
		mc::step();
		++mc::res.states;
	}
	++mc::res.traces;
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	const int d = mc::pick(4, 6, 7);
	scenario("sequences float", [=]() { sequences<float>(d); });
	scenario("sequences double", [=]() { sequences<double>(d); });
	scenario("long run float", []() { longrun<float>(mc::pick(3000, 200000, 2000000)); });
	scenario("long run double", []() { longrun<double>(mc::pick(3000, 200000, 2000000)); });
	scenario("levels", []() { for (int level : {-50, -25, -12, 10, 25, 50}) { longrun<float>(1000, level); longrun<double>(1000, level); } });
	scenario("phases float", []() { phases<float>(mc::pick(8, 64, 200)); });
	scenario("phases double", []() { phases<double>(mc::pick(8, 64, 200)); });
	scenario("recover float", []() { recover<float>(); });
	scenario("recover double", []() { recover<double>(); });
}
