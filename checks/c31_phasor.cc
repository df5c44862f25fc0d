// C31: the oscillator against exact phase accumulation
#include "mc.hh"
#include "const.hh"
#include "complex.hh"
#include "phasor.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static const ld PI = acosl(-1);
static double worst;

struct Ref { ld phase = 0, delta = 0; int steps = 0; };

template <class V>
void check(DSP::Complex<V> y, ld phase, ld k, int t)
{
	ld re = y.real(), im = y.imag(), e = mc::eps<V>();
	MC_CHECK(mc::finite_bits(y.real()) && mc::finite_bits(y.imag()), "output %d not finite", t);
	ld mag = sqrtl(re * re + im * im);
	worst = max(worst, (double)(std::abs(mag - 1) / (4 * e)));
	MC_CHECK(std::abs(mag - 1) <= 4 * e, "output %d has magnitude 1%+.3g", t, (double)(mag - 1));
	ld d = std::abs(cld(re, im) - cld(cosl(phase), sinl(phase)));
	worst = max(worst, (double)(d / (k * e)));
	MC_CHECK(d <= k * e, "output %d is (%.9g,%.9g) instead of (%.9g,%.9g)", t, (double)re, (double)im, (double)cosl(phase), (double)sinl(phase));
}
template <class V>
void sequences(int depth)
{
	typedef DSP::Phasor<DSP::Complex<V>> F;
	static mc::Dfs<F, Ref> dfs;
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	dfs.ops.push_back({"next", [](F &f, Ref &r) {
		check<V>(f(), r.phase, 8 + 8 * r.steps, r.steps);
		mc::outcome(mc::bits((double)r.phase));
		r.phase += r.delta;
		++r.steps;
	}});
	dfs.ops.push_back({"reset", [](F &f, Ref &r) { f.reset(); r.phase = 0; }});
	for (auto c : {std::pair<int, int>{1, 7}, {-3, 8}}) dfs.ops.push_back({str("omega(%d,%d)", c.first, c.second), [=](F &f, Ref &r) { f.omega(c.first, c.second); r.delta = 2 * PI * c.first / c.second; }});
	for (double v : {2.5, -0.75}) dfs.ops.push_back({str("omega(%g)", v), [=](F &f, Ref &r) { f.omega(V(v)); r.delta = v; }});
	for (double v : {0.0625, -0.3125}) dfs.ops.push_back({str("freq(%g)", v), [=](F &f, Ref &r) { f.freq(V(v)); r.delta = 2 * PI * v; }});
	dfs.run(depth, Ref());
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// from the actual output, the next one advances by the configured angle
template <class V>
void advance(const std::function<void(DSP::Phasor<DSP::Complex<V>> &)> &set, ld delta, int steps, const std::string &name)
{
	typedef DSP::Phasor<DSP::Complex<V>> F;
	static mc::Arena<F> arena;
	mc::describe = [&] { return name; };
	F &f = arena.make(0x4B);
	set(f);
	cld prev(1, 0), rot(cosl(delta), sinl(delta));
	const ld e = mc::eps<V>();
	ld drift = 0;
	for (int t = 0; t < steps; ++t) {
		DSP::Complex<V> y = f();
		cld z((ld)y.real(), (ld)y.imag());
		ld mag = sqrtl(std::norm(z));
		MC_CHECK(mc::finite_bits(y.real()) && mc::finite_bits(y.imag()) && std::abs(mag - 1) <= 4 * e, "output %d has magnitude %.9g", t, (double)mag);
		if (t) {
			cld want = prev * rot;
			ld d = std::abs(z - want);
			worst = max(worst, (double)(d / ((8 + std::abs(delta)) * e)));
			MC_CHECK(d <= (8 + std::abs(delta)) * e, "output %d is off by %.3g after one step", t, (double)d);
			cld err = z * std::conj(want);
			drift += err.imag();
		} else {
			MC_CHECK(z == cld(1, 0), "first output (%.9g,%.9g)", (double)z.real(), (double)z.imag());
		}
		prev = z;
		mc::step();
		++mc::res.states;
		if (t % 64 == 5) mc::outcome(mc::mix(mc::bits(y.real()), mc::bits(y.imag())));
	}
	worst = max(worst, (double)(std::abs(drift) / ((2 + std::abs(delta)) * e * steps)));
	MC_CHECK(std::abs(drift) <= (2 + std::abs(delta)) * e * steps, "phase drifted by %.3g in %d steps", (double)drift, steps);
	++mc::res.traces;
	if (mc::want_sample()) mc::sample(str("%s: %d steps, drift %.3g", name.c_str(), steps, (double)drift));
	mc::describe = nullptr;
}
template <class V>
void rational(int top, int steps)
{
	typedef DSP::Phasor<DSP::Complex<V>> F;
	for (int N = 1; N <= top; ++N) for (int n = -N; n <= N; ++n) advance<V>([=](F &f) { f.omega(n, N); }, 2 * PI * n / N, steps, str("omega(%d, %d)", n, N));
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
template <class V>
void real(int steps)
{
	typedef DSP::Phasor<DSP::Complex<V>> F;
	for (int k = -64; k <= 64; ++k) {
		V v = V(k) / V(16), q = V(k) / V(50);
		advance<V>([=](F &f) { f.omega(v); }, (ld)v, steps, str("omega(%g)", (double)v));
		advance<V>([=](F &f) { f.freq(q); }, 2 * PI * (ld)q, steps, str("freq(%g)", (double)q));
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// slow and fast rotations
template <class V>
void extremes(int steps)
{
	typedef DSP::Phasor<DSP::Complex<V>> F;
	for (int sign : {1, -1}) for (int k = -40; k <= 7; ++k) for (int m : {4, 5, 7}) {
		V v = sign * std::ldexp(V(m), k), q = v / 8;
		advance<V>([=](F &f) { f.omega(v); }, (ld)v, steps, str("omega(%g)", (double)v));
		advance<V>([=](F &f) { f.freq(q); }, 2 * PI * (ld)q, steps, str("freq(%g)", (double)q));
	}
	for (int N : {30000, 70000, 1000003, 40000000}) for (int n : {1, 2, 1000, N / 8, N / 3, N - 1, N}) for (int sign : {1, -1}) advance<V>([=](F &f) { f.omega(sign * n, N); }, 2 * PI * sign * n / N, steps, str("omega(%d, %d)", sign * n, N));
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
template <class V>
void longrun(int steps)
{
	typedef DSP::Phasor<DSP::Complex<V>> F;
	for (auto c : {std::pair<int, int>{1, 48000}, {12345, 48000}, {-1, 3}, {1, 4}, {0, 1}}) advance<V>([=](F &f) { f.omega(c.first, c.second); }, 2 * PI * c.first / c.second, steps, str("omega(%d, %d)", c.first, c.second));
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}

void register_scenarios()
{
	using mc::scenario;
	const int d = mc::pick(4, 6, 7);
	scenario("sequences float", [=]() { sequences<float>(d); });
	scenario("sequences double", [=]() { sequences<double>(d); });
	scenario("rational float", []() { rational<float>(mc::pick(8, 40, 100), 300); });
	scenario("rational double", []() { rational<double>(mc::pick(8, 40, 100), 300); });
	scenario("real float", []() { real<float>(mc::pick(100, 1000, 10000)); });
	scenario("real double", []() { real<double>(mc::pick(100, 1000, 10000)); });
	scenario("extremes float", []() { extremes<float>(mc::pick(100, 2000, 20000)); });
	scenario("extremes double", []() { extremes<double>(mc::pick(100, 2000, 20000)); });
	scenario("long run float", []() { longrun<float>(mc::pick(10000, 2000000, 20000000)); });
	scenario("long run double", []() { longrun<double>(mc::pick(10000, 2000000, 20000000)); });
}
