// C30: sine and IQ normalizers
#include "mc.hh"
#include "complex.hh"
#include "normalize.hh"

using mc::str;
typedef mc::ld ld;
static const ld PI = acosl(-1);
static double worst;

struct Ref {
	ld x1 = 0, y1 = 0, a = 0, b = 0.5L, mean = 0.5L, alpha = 1;
	ld slack = 0; // rounding of the difference between a loud mean and a quiet square, or the other way round
	void samples(int s) { a = (s - 1) / (ld)s; b = (1 + a) / 2; alpha = 1 / (ld)s; }
	ld operator()(ld x)
	{
		y1 = b * (x - x1) + a * y1;
		x1 = x;
		slack = (1 - alpha) * slack + 4 * alpha * max(mean, y1 * y1);
		mean += alpha * (y1 * y1 - mean);
		return y1 / sqrtl(2 * mean);
	}
	bool defined() const { return mean > 0; } // all zero input divides zero by zero
};
template <class V>
void compare(V y, const Ref &r, ld want, const char *name)
{
	if (!r.defined()) return;
	ld part = r.slack * mc::eps<V>() / r.mean;
	if (part > 0.25L) return;
	ld tol = 400 * (ld)mc::eps<V>() + part * std::abs(want), d = std::abs((ld)y - want);
	worst = max(worst, (double)(d / tol));
	MC_CHECK(mc::finite_bits(y) && d <= tol, "%s is %.9g instead of %.9g", name, (double)y, (double)want);
}
template <class V>
void sine(int depth)
{
	typedef DSP::NormalizeSine<V> F;
	static mc::Dfs<F, Ref> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	for (double x : {0.0, 1.0, -2.5, 40.0}) dfs.ops.push_back({str("in(%g)", x), [=](F &f, Ref &r) {
		ld want = r(x);
		compare<V>(f(V(x)), r, want, "output");
		if (r.defined()) mc::outcome(mc::bits((double)want));
	}});
	for (int s : {1, 2, 10}) dfs.ops.push_back({str("samples(%d)", s), [=](F &f, Ref &r) { f.samples(s); r.samples(s); }});
	dfs.run(depth, Ref());
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
struct Ref2 { Ref i, q; };
template <class V>
void iq(int depth)
{
	typedef DSP::NormalizeIQ<DSP::Complex<V>> F;
	static mc::Dfs<F, Ref2> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	for (auto x : {std::pair<double, double>{1, -20}, {-2.5, 3}, {40, 0.125}, {0.5, 0.5}}) dfs.ops.push_back({str("in(%g,%g)", x.first, x.second), [=](F &f, Ref2 &r) {
		ld wi = r.i(x.first), wq = r.q(x.second);
		DSP::Complex<V> y = f(DSP::Complex<V>(V(x.first), V(x.second)));
		compare<V>(y.real(), r.i, wi, "real part");
		compare<V>(y.imag(), r.q, wq, "imaginary part");
		if (r.i.defined() && r.q.defined()) mc::outcome(mc::mix(mc::bits((double)wi), mc::bits((double)wq)));
	}});
	for (int s : {2, 10}) dfs.ops.push_back({str("samples(%d)", s), [=](F &f, Ref2 &r) { f.samples(s); r.i.samples(s); r.q.samples(s); }});
	dfs.run(depth, Ref2());
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// steady sinusoids; the mean square over s samples ripples by about period / (4 Pi s)
template <class V>
void settle(int n, int N, int s, double amp, double offset, int phase)
{
	typedef DSP::NormalizeIQ<DSP::Complex<V>> F;
	static mc::Arena<F> arena;
	mc::describe = [=] { return str("%d/%d turns per sample, samples(%d), amplitude %g, offset %g, phase %d/8", n, N, s, amp, offset, phase); };
	F &f = arena.make(0x4B);
	f.samples(s);
	Ref r;
	r.samples(s);
	const double amp2 = amp * 7 + 1, off2 = -3 * offset;
	const int settled = 12 * s + int(2 * s * (log(std::abs(offset / amp) + 1) + log(1 + 1 / amp))), steps = settled + 2 * N;
	ld topi = 0, topq = 0, poweri = 0, powerq = 0, off = 0;
	for (int t = 0; t < steps; ++t) {
		ld w = 2 * PI * ((long long)n * t % N) / N + PI * phase / 4;
		DSP::Complex<V> y = f(DSP::Complex<V>(V(amp * cosl(w) + offset), V(amp2 * sinl(w) + off2)));
		MC_CHECK(mc::finite_bits(y.real()) && mc::finite_bits(y.imag()), "output not finite at step %d", t);
		if (t >= steps - N) {
			topi = max(topi, std::abs((ld)y.real())); topq = max(topq, std::abs((ld)y.imag()));
			poweri += (ld)y.real() * y.real(); powerq += (ld)y.imag() * y.imag();
			off += (ld)y.real();
		}
		mc::step();
		++mc::res.states;
	}
	const ld ripple = (ld)N / n / (4 * PI * s) + 0.01L;
	MC_CHECK(std::abs(poweri / N * 2 - 1) < 2 * ripple && std::abs(powerq / N * 2 - 1) < 2 * ripple, "mean squares %.6g and %.6g instead of one half", (double)(poweri / N), (double)(powerq / N));
	MC_CHECK(topi < 1 + ripple && topq < 1 + ripple, "peaks %.6g and %.6g instead of one", (double)topi, (double)topq);
	MC_CHECK(std::abs(off / N) < ripple, "mean %.6g", (double)(off / N));
	++mc::res.traces;
	mc::outcome(mc::mix(mc::bits((double)topi), mc::bits((double)topq)));
	mc::describe = nullptr;
}
template <class V>
void steady()
{
	for (auto f : {std::pair<int, int>{1, 4}, {1, 16}, {3, 16}, {7, 16}, {1, 50}, {5, 64}}) for (int s : {200, 1000}) for (double amp : {0.01, 1.0, 300.0}) for (double off : {0.0, 1.0, -40.0}) for (int phase = 0; phase < 8; phase += mc::pick(4, 2, 1)) {
		if (sizeof(V) == 4 && std::abs(off) > 100 * amp) continue; // too few digits left
		settle<V>(f.first, f.second, s, amp, off * (amp < 1 ? 0.02 : 1), phase);
	}
}
// both against the recursion for a long time
template <class V>
void longrun(int steps, int level = 0, std::vector<int> counts = {1, 3, 16})
{
	static mc::Arena<DSP::NormalizeSine<V>> as;
	static mc::Arena<DSP::NormalizeIQ<DSP::Complex<V>>> aq;
	int s, t;
	mc::describe = [&] { return str("samples(%d), level %d, step %d", s, level, t); };
	for (int n : counts) {
		s = n;
		auto &f = as.make(0x4B);
		auto &g = aq.make(0x4B);
		f.samples(s);
		g.samples(s);
		Ref r, i, q;
		r.samples(s); i.samples(s); q.samples(s);
		for (t = 0; t < steps; ++t) {
			ld x = (t * 37LL % 29 - 14) / (ld)8, y = (t * 11LL % 17 - 8) / (ld)4;
			x = std::ldexp(x, level); y = std::ldexp(y, level);
			ld want = r(x), wi = i(x), wq = q(y);
			compare<V>(f(V(x)), r, want, "sine");
			DSP::Complex<V> z = g(DSP::Complex<V>(V(x), V(y)));
			compare<V>(z.real(), i, wi, "real part");
			compare<V>(z.imag(), q, wq, "imaginary part");
			mc::step(); mc::step();
			++mc::res.states;
			if (t % 1024 < 32) mc::outcome(mc::bits((double)want));
		}
		mc::res.traces += 2;
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	const int d = mc::pick(5, 7, 8);
	scenario("sine sequences float", [=]() { sine<float>(d); });
	scenario("sine sequences double", [=]() { sine<double>(d); });
	scenario("IQ sequences float", [=]() { iq<float>(d); });
	scenario("IQ sequences double", [=]() { iq<double>(d); });
	scenario("long run float", []() { longrun<float>(mc::pick(3000, 200000, 2000000)); });
	scenario("long run double", []() { longrun<double>(mc::pick(3000, 200000, 2000000)); });
	scenario("levels", []() { for (int level : {-50, -25, -12, 10, 40}) { longrun<float>(4000, level); longrun<double>(4000, level); } });
	scenario("large sample counts", []() { longrun<float>(100, 0, {1000, 40000, 70000, 1000000}); longrun<double>(100, 0, {1000, 40000, 70000, 1000000}); });
	scenario("steady float", steady<float>);
	scenario("steady double", steady<double>);
}
