// C26: FIR kernels and coefficient arrays
#include "mc.hh"
#include "const.hh"
#include "filter.hh"
#include "window.hh"
#include "coeffs.hh"

using mc::str;
typedef mc::ld ld;

static std::string what;
static double worst[8];
static void trace() { mc::describe = []() { return what; }; }
static const ld PI = acosl(-1);
static ld sinc_(ld x) { return x == 0 ? 1 : sinl(PI * x) / (PI * x); }
// sin(Pi * a / b) / (Pi * a / b) with exact reduction
static ld sinc_(long long a, long long b) { return a == 0 ? 1 : sinl(PI * (a % (2 * b)) / b) / (PI * a / b); }

template <class T>
void expect(int k, const char *name, int n, T got, ld want, ld tol)
{
	ld d = got - want;
	if (d < 0) d = -d;
	worst[k] = max(worst[k], (double)(d / tol));
	MC_CHECK(mc::finite_bits(got) && d <= tol, "%s(%d) is %.12g instead of %.12g, tolerance %.3g", name, n, (double)got, (double)want, (double)tol);
	++mc::res.evals;
	if (mc::res.evals % 16 == 1) mc::outcome(mc::mix(mc::bits(got), k));
}
// rational cutoff num/den; the real-valued forms get the same cutoff
template <class T>
void kernels(int num, int den, int N)
{
	what = str("cutoff %d/%d, %d taps, %s", num, den, N, sizeof(T) == 4 ? "float" : "double");
	const ld e = mc::eps<T>();
	volatile T vc = T(num) / T(den); // rounded
	const T cutoff = vc;
	const ld f = 2 * (ld)num / den, fr = 2 * (ld)cutoff;
	DSP::LowPass<T> lp(cutoff);
	DSP::HighPass<T> hp(cutoff);
	DSP::LowPass2<T> lp2(num, den);
	DSP::HighPass2<T> hp2(num, den);
	for (int n = 0; n < N; ++n) {
		const int twox = 2 * n - (N - 1);
		const ld x = twox / 2.L;
		const ld ideal = f * sinc_((long long)twox * num, den), all = (N & 1) ? (twox == 0) : sinc_(twox, 2);
		const ld real = fr * sinc_(fr * x);
		expect<T>(0, "LowPass", n, lp(n, N), real, 3 * e);
		expect<T>(1, "HighPass", n, hp(n, N), all - real, 5 * e);
		expect<T>(2, "LowPass2", n, lp2(n, N), ideal, 3 * e);
		expect<T>(3, "HighPass2", n, hp2(n, N), all - ideal, 5 * e);
		expect<T>(4, "LowPass2 + HighPass2", n, lp2(n, N) + hp2(n, N), all, 8 * e);
		expect<T>(5, "LowPass - LowPass2", n, lp(n, N) - lp2(n, N), 0, 8 * e);
	}
	mc::step();
}
template <class T>
void bands(int lo, int hi, int den, int N)
{
	what = str("band %d/%d to %d/%d, %d taps", lo, den, hi, den, N);
	volatile T va = T(lo) / T(den), vb = T(hi) / T(den);
	const T a = va, b = vb;
	const ld fa = 2 * (ld)a, fb = 2 * (ld)b, e = mc::eps<T>();
	DSP::BandPass<T> bp(a, b);
	for (int n = 0; n < N; ++n) {
		ld x = (2 * n - (N - 1)) / 2.L;
		expect<T>(6, "BandPass", n, bp(n, N), fb * sinc_(fb * x) - fa * sinc_(fa * x), 5 * e);
	}
	mc::step();
}
template <class T>
void hilbert(int N)
{
	what = str("Hilbert kernel of %d taps", N);
	DSP::HilbertTransform<T> h;
	for (int n = 0; n < N; ++n) {
		const int twox = 2 * n - (N - 1);
		ld want = N & 1 ? (twox / 2) % 2 ? 2 / (PI * (twox / 2)) : 0 : 2 / (PI * twox);
		expect<T>(7, "Hilbert", n, h(n, N), want, 4 * (ld)mc::eps<T>() * (want < 0 ? -want : want) + 1e-300L);
	}
	mc::step();
}
static void done()
{
	std::string s = mc::cur_name + ": largest deviation over tolerance";
	for (double w : worst) s += str(" %.2f", w);
	mc::note(s);
	mc::describe = nullptr;
}

// coefficient arrays: given values
template <class T> struct Table { std::vector<T> v; int taps; T operator()(int n, int N) const { MC_CHECK(N == taps && n >= 0 && n < N, "generator called with (%d, %d)", n, N); return v[n]; } };
template <int TAPS, class T>
void arrays(const std::vector<double> &values)
{
	const ld e = mc::eps<T>();
	mc::product(std::vector<int>(TAPS, values.size()), [&](const std::vector<int> &ix) {
		Table<T> t{{}, TAPS}, u{{}, TAPS};
		ld sum = 0, mag = 0, sum2 = 0, mag2 = 0;
		what = str("%d taps:", TAPS);
		for (int i = 0; i < TAPS; ++i) {
			t.v.push_back(T(values[ix[i]]));
			u.v.push_back(T(i + 2));
			sum += (ld)t.v[i]; mag += std::abs((ld)t.v[i]);
			sum2 += (ld)t.v[i] * u.v[i]; mag2 += std::abs((ld)t.v[i] * u.v[i]);
			what += str(" %g", (double)t.v[i]);
		}
		DSP::Coeffs<TAPS, T> c(&t);
		DSP::Coeffs<TAPS, T> d(&t, &u);
		const T *p = c;
		for (int i = -3; i < TAPS + 3; ++i) {
			bool in = i >= 0 && i < TAPS;
			MC_CHECK(c(i) == (in ? t.v[i] : T(0)), "coefficient %d is %.9g", i, (double)c(i));
			MC_CHECK(d(i) == (in ? T(t.v[i] * u.v[i]) : T(0)), "product %d is %.9g", i, (double)d(i));
			if (in) MC_CHECK(p[i] == t.v[i], "pointer to coefficients");
		}
		auto normalized = [&](auto &w, const char *name, ld s, ld m, auto value, ld divisor) {
			ld as = s < 0 ? -s : s, total = 0;
			for (int i = -2; i < TAPS + 2; ++i) {
				bool in = i >= 0 && i < TAPS;
				ld want = in ? value(i) / (as * divisor) : 0, tol = (4 + TAPS) * e * (1 + m / as) * (want < 0 ? -want : want) * (in ? 1 : 0);
				ld dlt = (ld)w(i) - want;
				if (dlt < 0) dlt = -dlt;
				MC_CHECK(mc::finite_bits(w(i)) && dlt <= tol, "%s coefficient %d is %.9g instead of %.9g", name, i, (double)w(i), (double)want);
				if (in) total += (ld)w(i);
			}
			total *= divisor;
			MC_CHECK(std::abs((double)(total - (s < 0 ? -1 : 1))) <= (8 + 4 * TAPS) * e * (m / as), "%s coefficients sum to %.9g", name, (double)total);
			++mc::res.evals;
		};
		auto vt = [&](int i) { return (ld)t.v[i]; };
		auto vd = [&](int i) { return (ld)t.v[i] * u.v[i]; };
		if (sum != 0 && mag / std::abs(sum) < 1e3L) {
			DSP::Coeffs<TAPS, T, true> n(&t);
			normalized(n, "normalized", sum, mag, vt, 1);
			DSP::Coeffs<TAPS, T> m(&t);
			m.normalize();
			normalized(m, "normalize()", sum, mag, vt, 1);
			DSP::Coeffs<TAPS, T> q(&t);
			q.normalize(T(4));
			normalized(q, "normalize(4)", sum, mag, vt, 4);
			q.normalize(T(0.5)); // again with another divisor
			normalized(q, "repeatedly normalized", sum, mag, vt, 0.5L);
			q.normalize(T(-2));
			normalized(q, "normalize(-2)", sum, mag, vt, -2);
		}
		if (sum2 != 0 && mag2 / std::abs(sum2) < 1e3L) {
			DSP::Coeffs<TAPS, T, true> n(&t, &u);
			normalized(n, "normalized product", sum2, mag2, vd, 1);
		}
		mc::step();
		mc::outcome(std::hash<std::string>()(what));
	});
}
// real designs: windowed kernels
template <int TAPS, class T>
void designs()
{
	what = str("designs of %d taps", TAPS);
	DSP::Kaiser<T> k(T(2));
	DSP::Hann<T> h;
	DSP::LowPass<T> lp(T(0.1));
	DSP::HilbertTransform<T> ht;
	DSP::Coeffs<TAPS, T> a(&lp, &k), b(&k);
	DSP::Coeffs<TAPS, T, true> c(&lp, &h);
	DSP::Coeffs<TAPS, T> d(&ht, &k);
	ld sum = 0;
	for (int n = 0; n < TAPS; ++n) sum += (ld)lp(n, TAPS) * h(n, TAPS);
	const ld e = mc::eps<T>();
	for (int n = -1; n <= TAPS; ++n) {
		bool in = n >= 0 && n < TAPS;
		auto near = [&](T got, ld want, ld tol) { ld x = got - want; MC_CHECK(mc::finite_bits(got) && x <= tol && x >= -tol, "coefficient %d is %.9g instead of %.9g", n, (double)got, (double)want); };
		near(a(n), in ? (ld)lp(n, TAPS) * k(n, TAPS) : 0, in ? 8 * e : 0);
		near(b(n), in ? (ld)k(n, TAPS) : 0, in ? 8 * e : 0);
		near(c(n), in ? (ld)lp(n, TAPS) * h(n, TAPS) / sum : 0, in ? 40 * e : 0);
		near(d(n), in ? (ld)ht(n, TAPS) * k(n, TAPS) : 0, in ? 8 * e : 0);
		++mc::res.evals;
	}
	mc::step();
	mc::outcome(mc::mix(TAPS, mc::bits(a(TAPS / 2))));
}

void register_scenarios()
{
	using mc::scenario;
	const int tops[] = {mc::pick(20, 100, 300), mc::pick(12, 48, 128)};
	for (int i = 0; i < 8; ++i) scenario(str("cutoffs of all denominators up to %d, part %d of 8", tops[1], i), [=]() {
		trace();
		for (int den = 2 + i; den <= tops[1]; den += 8) for (int num = 1; 2 * num <= den; ++num) for (int N = 1; N <= tops[0]; N += den > 16 ? 7 : 1) { kernels<float>(num, den, N); kernels<double>(num, den, N); }
		done();
	});
	scenario("audio cutoffs", []() {
		trace();
		for (int rate : {8000, 44100, 48000}) for (int f : {1, 50, 300, 1000, 3400}) for (int N : {1, 2, 31, 32, 255, 256, 1023, 4001}) { kernels<float>(f, rate, N); kernels<double>(f, rate, N); }
		done();
	});
	scenario("long kernels", []() {
		trace();
		for (int N : mc::san ? std::vector<int>{33000} : std::vector<int>{32769, 33000, 70001}) for (auto c : {std::pair<int, int>{1, 4}, {3, 10}, {300, 8000}, {3400, 44100}}) { kernels<float>(c.first, c.second, N); kernels<double>(c.first, c.second, N); }
		for (int N : {33000, 70001}) { bands<double>(3, 10, 25, N); bands<float>(3, 10, 25, N); hilbert<float>(N); hilbert<double>(N); }
		done();
	});
	scenario("bands", []() {
		trace();
		for (int den : {16, 25, 100}) for (int lo = 0; 2 * lo <= den; lo += 1 + den / 30) for (int hi = lo % (1 + den / 30); 2 * hi <= den; hi += 1 + den / 30) for (int N : {1, 2, 3, 4, 31, 32, 101}) { bands<float>(lo, hi, den, N); bands<double>(lo, hi, den, N); }
		done();
	});
	scenario("Hilbert kernels", []() { trace(); for (int N = 1; N <= mc::pick(50, 1000, 4000); ++N) { hilbert<float>(N); hilbert<double>(N); } done(); });
#define T_(T) \
	scenario("arrays " #T " 1", []() { trace(); arrays<1, T>({-3, -0.25, 0, 0.001, 1, 7, 1000}); mc::describe = nullptr; }); \
	scenario("arrays " #T " 2", []() { trace(); arrays<2, T>({-3, -1, -0.25, 0, 0.001, 0.5, 1, 7, 1000}); mc::describe = nullptr; }); \
	scenario("arrays " #T " 3", []() { trace(); arrays<3, T>({-3, -0.25, 0, 0.001, 0.3, 1, 7}); mc::describe = nullptr; }); \
	scenario("arrays " #T " 5", []() { trace(); arrays<5, T>({-3, -0.25, 0, 0.3, 2}); mc::describe = nullptr; }); \
	scenario("designs " #T, []() { trace(); designs<3, T>(); designs<8, T>(); designs<31, T>(); designs<64, T>(); designs<255, T>(); designs<1000, T>(); designs<1023, T>(); designs<2048, T>(); designs<4097, T>(); mc::describe = nullptr; });
	T_(float) T_(double)
}
