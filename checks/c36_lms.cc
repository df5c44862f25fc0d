// C36: adaptive filters, each update against the normalized least mean squares rule
#include "mc.hh"
#include "complex.hh"
#include "lms.hh"

using mc::str;
typedef mc::ld ld;
typedef std::complex<ld> cld;
static double worst;

struct Ref { std::vector<cld> hist; }; // oldest first

template <class V, int N> struct RealFilter {
	typedef DSP::NLMS<V, N> F;
	static cld weight(const F &f, int i) { const V *w = f; return (ld)w[i]; }
	static cld call(F &f, cld x, cld d, int mu) { return (ld)(mu == -1 ? f(V(x.real()), V(d.real())) : f(V(x.real()), V(d.real()), V(mu / (ld)4))); }
};
template <class V, int N> struct ComplexFilter {
	typedef DSP::NCLMS<DSP::Complex<V>, N> F;
	typedef DSP::Complex<V> C;
	static cld weight(const F &f, int i) { const C *w = f; return cld((ld)w[i].real(), (ld)w[i].imag()); }
	static cld call(F &f, cld x, cld d, int mu)
	{
		C a(V(x.real()), V(x.imag())), b(V(d.real()), V(d.imag())), e;
		if (mu == -1) e = f(a, b); else e = f(a, b, V(mu / (ld)4));
		return cld((ld)e.real(), (ld)e.imag());
	}
};
// one call: mu in quarters, -1 for the default of one
template <class W, class V, int N>
void call(typename W::F &f, Ref &r, cld x, cld desired, int mu)
{
	const ld e = mc::eps<V>(), m = mu == -1 ? 1 : mu / (ld)4;
	cld w[N], estimate = 0;
	ld power = 0, scale = std::abs(desired);
	r.hist.erase(r.hist.begin());
	r.hist.push_back(x);
	for (int i = 0; i < N; ++i) {
		w[i] = W::weight(f, i);
		estimate += w[i] * r.hist[i];
		scale += std::abs(w[i] * r.hist[i]);
		power += std::norm(r.hist[i]);
	}
	cld got = W::call(f, x, desired, mu), want = desired - estimate, after = 0;
	ld d = std::abs(got - want), tol = (4 + 2 * N) * e * scale;
	if (tol > 0) worst = max(worst, (double)(d / tol));
	MC_CHECK(d <= tol && d == d, "error (%.9g,%.9g) instead of (%.9g,%.9g)", (double)got.real(), (double)got.imag(), (double)want.real(), (double)want.imag());
	for (int i = 0; i < N; ++i) {
		cld u = W::weight(f, i), v = w[i];
		if (power == 0) {
			MC_CHECK(u == v, "weight %d changed without input power", i);
			continue;
		}
		v += m / power * want * std::conj(r.hist[i]);
		d = std::abs(u - v);
		tol = (8 + 4 * N) * e * (std::abs(w[i]) + std::abs(m) * scale * std::abs(r.hist[i]) / power);
		if (tol > 0) worst = max(worst, (double)(d / tol));
		MC_CHECK(d <= tol && d == d, "weight %d is (%.9g,%.9g) instead of (%.9g,%.9g)", i, (double)u.real(), (double)u.imag(), (double)v.real(), (double)v.imag());
		after += u * r.hist[i];
	}
	if (power > 0 && m == 1) {
		d = std::abs(after - desired);
		MC_CHECK(d <= (32 + 32 * N) * e * scale, "step one reproduces (%.9g,%.9g) instead of (%.9g,%.9g)", (double)after.real(), (double)after.imag(), (double)desired.real(), (double)desired.imag());
	}
	mc::outcome(mc::mix(mc::bits((double)(power)), mc::bits((double)std::norm(want))));
}
template <class W, class V, int N>
void sequences(int depth, bool cplx, int xscale = 0, int dscale = 0)
{
	typedef typename W::F F;
	static mc::Dfs<F, Ref> dfs;
	dfs.ops.clear();
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	struct In { cld x, d; int mu; };
	for (In in : {In{{1, 0.5L}, {2, -1}, -1}, In{{-2, 0}, {0, 0.25L}, 2}, In{{0, 0}, {3, 0}, -1}, In{{0, 3}, {-1, 1}, 6}, In{{0.25L, -1}, {1, 0}, 0}, In{{5, 4}, {0.5L, 0.5L}, 4}, In{{1, -1}, {2, 0.5L}, -4}, In{{-1, 0.5L}, {-1, 2}, 12}}) {
		if (!cplx) { in.x = in.x.real() + in.x.imag(); in.d = in.d.real(); }
		in.x *= std::ldexp((ld)1, xscale);
		in.d *= std::ldexp((ld)1, dscale);
		dfs.ops.push_back({str("(%g%+gi, %g%+gi, mu %d/4)", (double)in.x.real(), (double)in.x.imag(), (double)in.d.real(), (double)in.d.imag(), in.mu), [=](F &f, Ref &r) { call<W, V, N>(f, r, in.x, in.d, in.mu); }});
	}
	Ref r;
	r.hist.assign(N, 0);
	dfs.run(depth, r);
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
}
// data from a fixed filter: the distance never grows, for every input sequence
struct Ref2 : Ref { ld dist = 0; };
template <class W, class V, int N>
void identify(int depth, bool cplx, int mu)
{
	typedef typename W::F F;
	static mc::Dfs<F, Ref2> dfs;
	dfs.ops.clear();
	dfs.make = [](mc::Arena<F> &a, int poison) { a.make(poison); };
	std::vector<cld> h;
	for (int i = 0; i < N; ++i) h.push_back(cplx ? cld(1.5L - i, 0.5L * i + 0.25L) : cld(1.5L - i));
	for (cld x : {cld(1, 0), cld(-2, 1), cld(0, 0), cld(0.5L, -3)}) {
		if (!cplx) x = x.real() + x.imag();
		dfs.ops.push_back({str("x=%g%+gi", (double)x.real(), (double)x.imag()), [=](F &f, Ref2 &r) {
			cld d = 0;
			for (int i = 0; i < N; ++i) d += h[i] * (i < N - 1 ? r.hist[i + 1] : x);
			call<W, V, N>(f, r, x, d, mu);
			ld dist = 0;
			for (int i = 0; i < N; ++i) dist += std::norm(W::weight(f, i) - h[i]);
			MC_CHECK(dist <= r.dist + 2000 * (ld)mc::eps<V>(), "squared distance grows from %.9g to %.9g", (double)r.dist, (double)dist);
			r.dist = dist;
		}});
	}
	Ref2 r;
	r.hist.assign(N, 0);
	for (cld c : h) r.dist += std::norm(c);
	dfs.run(depth, r);
}
// long runs: converges to the filter
template <class W, class V, int N>
void converge(bool cplx, int steps = 200 * N + 200)
{
	typedef typename W::F F;
	static mc::Arena<F> arena;
	for (int mu : {-1, 2, 6}) {
		F &f = arena.make(0x4B);
		std::vector<cld> h;
		for (int i = 0; i < N; ++i) h.push_back(cplx ? cld(1 - 2 * (i % 3), i % 5 * 0.25L) : cld(1 - 2 * (i % 3)));
		Ref r;
		r.hist.assign(N, 0);
		mc::u64 s = 12345;
		auto next = [&]() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (ld)((long long)(s >> 40) % 257 - 128) / 64; };
		for (int t = 0; t < steps; ++t) {
			cld x = cplx ? cld(next(), next()) : cld(next()), d = 0;
			for (int i = 0; i < N; ++i) d += h[i] * (i < N - 1 ? r.hist[i + 1] : x);
			call<W, V, N>(f, r, x, d, mu);
			mc::step();
			++mc::res.states;
		}
		++mc::res.traces;
		for (int i = 0; i < N; ++i) MC_CHECK(std::abs(W::weight(f, i) - h[i]) < 1e-3L, "step %d/4: weight %d did not converge", mu, i);
	}
}

void register_scenarios()
{
	using mc::scenario;
	const int d = mc::pick(4, 6, 7), k = mc::pick(4, 7, 8);
#define L_(T, N) \
	scenario("NLMS sequences " #T " " #N, [=]() { sequences<RealFilter<T, N>, T, N>(d, false); }); \
	scenario("NCLMS sequences " #T " " #N, [=]() { sequences<ComplexFilter<T, N>, T, N>(d, true); }); \
	scenario("NLMS levels " #T " " #N, [=]() { for (int a : {-40, -9, 11, 30}) for (int b : {-30, 0, 20}) sequences<RealFilter<T, N>, T, N>(d - 2, false, a, b); }); \
	scenario("NCLMS levels " #T " " #N, [=]() { for (int a : {-40, -9, 11, 30}) for (int b : {-30, 0, 20}) sequences<ComplexFilter<T, N>, T, N>(d - 2, true, a, b); }); \
	scenario("NLMS identify " #T " " #N, [=]() { for (int mu : {1, -1, 7}) identify<RealFilter<T, N>, T, N>(k, false, mu); }); \
	scenario("NCLMS identify " #T " " #N, [=]() { for (int mu : {1, -1, 7}) identify<ComplexFilter<T, N>, T, N>(k, true, mu); }); \
	scenario("NLMS converge " #T " " #N, []() { converge<RealFilter<T, N>, T, N>(false); }); \
	scenario("NCLMS converge " #T " " #N, []() { converge<ComplexFilter<T, N>, T, N>(true); });
	L_(float, 1) L_(float, 2) L_(float, 3) L_(float, 5) L_(float, 8)
	L_(double, 1) L_(double, 2) L_(double, 3) L_(double, 5) L_(double, 8)
	scenario("NLMS long run float 3", []() { converge<RealFilter<float, 3>, float, 3>(false, mc::pick(3000, 100000, 1000000)); });
	scenario("NCLMS long run double 3", []() { converge<ComplexFilter<double, 3>, double, 3>(true, mc::pick(3000, 100000, 1000000)); });
	scenario("NLMS converge float 32", []() { converge<RealFilter<float, 32>, float, 32>(false); });
	scenario("converge 64", []() { converge<RealFilter<double, 64>, double, 64>(false); converge<ComplexFilter<float, 64>, float, 64>(true); });
	scenario("converge 100", []() { converge<RealFilter<float, 100>, float, 100>(false); converge<ComplexFilter<double, 100>, double, 100>(true); });
	if (!mc::san) scenario("converge 300", []() { converge<RealFilter<float, 300>, float, 300>(false); converge<ComplexFilter<double, 260>, double, 260>(true); });
	if (!mc::san) scenario("converge 128", []() { converge<RealFilter<double, 128>, double, 128>(false); converge<ComplexFilter<float, 128>, float, 128>(true); });
	scenario("NCLMS converge double 31", []() { converge<ComplexFilter<double, 31>, double, 31>(true); });
}
