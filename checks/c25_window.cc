// C25: window functions against their formulas
#include "mc.hh"
#include "window.hh"

using mc::str;
typedef mc::ld ld;

static std::string win;
static int cn, cN;
static double worst;
static void trace() { mc::describe = []() { return str("%s n=%d N=%d", win.c_str(), cn, cN); }; }
static const ld PI = acosl(-1);

static ld bessel(ld x)
{
	ld sum = 1, t = 1;
	for (int m = 1; m < 200; ++m) {
		t *= (x / (2 * m)) * (x / (2 * m));
		sum += t;
		if (t < sum * 1e-22L) break;
	}
	return sum;
}
struct Spec { std::string name; std::function<ld(ld, ld)> formula; ld k; }; // k: tolerance in epsilon

template <class T, class W>
void check(const W &w, const Spec &s, int N, const std::vector<int> &idx)
{
	win = s.name;
	cN = N;
	const ld e = mc::eps<T>();
	const T centre = (N & 1) ? w((N - 1) / 2, N) : w(N / 2, N);
	for (int n : idx) {
		cn = n;
		T g = w(n, N);
		ld want = s.formula(n, N - 1), d = g - want;
		if (d < 0) d = -d;
		ld tol = s.k * e;
		worst = max(worst, (double)(d / tol));
		MC_CHECK(mc::finite_bits(g) && d <= tol, "value %.12g instead of %.12g, tolerance %.3g", (double)g, (double)want, (double)tol);
		ld m = (ld)g - (ld)w(N - 1 - n, N);
		MC_CHECK(m <= 2 * tol && m >= -2 * tol, "not symmetric: %.12g and %.12g", (double)g, (double)w(N - 1 - n, N));
		MC_CHECK(g <= 1 + tol, "value %.12g above one", (double)g);
		MC_CHECK(g <= centre + 2 * tol, "value %.12g above the centre's %.12g", (double)g, (double)centre);
		++mc::res.evals;
		if (mc::res.evals % 16 == 1) mc::outcome(mc::mix(mc::bits(g), std::hash<std::string>()(s.name)));
	}
}
template <class T>
void rect(int N)
{
	DSP::Rect<T> r;
	win = "Rect";
	cN = N;
	for (int n = -N - 3; n < 2 * N + 3; ++n) {
		cn = n;
		MC_CHECK(r(n, N) == (n >= 0 && n < N ? 1 : 0), "value %g", (double)r(n, N));
		++mc::res.evals;
	}
}
template <class T>
void all(int N, const std::vector<int> &idx)
{
	auto c = [](ld n, ld M) { return cosl(2 * PI * n / M); };
	if (idx.size() == (size_t)N) rect<T>(N);
	check<T>(DSP::Hann<T>(), {"Hann", [&](ld n, ld M) { return 0.5L - 0.5L * c(n, M); }, 3}, N, idx);
	check<T>(DSP::Hamming<T>(), {"Hamming", [&](ld n, ld M) { return 0.54L - 0.46L * c(n, M); }, 3}, N, idx);
	check<T>(DSP::Lanczos<T>(), {"Lanczos", [&](ld n, ld M) { ld x = PI * (2 * n - M) / M; return x == 0 ? 1 : sinl(x) / x; }, 6}, N, idx);
	check<T>(DSP::Blackman<T>(), {"exact Blackman", [&](ld n, ld M) { return (7938 - 9240 * c(n, M) + 1430 * c(2 * n, M)) / 18608; }, 4}, N, idx);
	for (double a : {0.16, 0.0, 0.2}) {
		ld la = (ld)(T)a;
		check<T>(DSP::Blackman<T>(T(a)), {str("Blackman(%g)", a), [&](ld n, ld M) { return (1 - la) / 2 - c(n, M) / 2 + la / 2 * c(2 * n, M); }, 4}, N, idx);
	}
	for (auto a : {std::array<double, 3>{0.5, 0.375, 0.125}, {0.5, 0.25, 0.125}, {0.25, 0.25, 0}, {0, 0.5, 0.0625}, {0.75, 0, 0}, {0.5, 0.5, -0.0625}})
		check<T>(DSP::Blackman<T>(T(a[0]), T(a[1]), T(a[2])), {str("Blackman(%g,%g,%g)", a[0], a[1], a[2]), [&](ld n, ld M) { return a[0] - a[1] * c(n, M) + a[2] * c(2 * n, M); }, 4}, N, idx);
	for (double o : {0.1, 0.3, 0.5, 2.0}) {
		ld lo = (ld)(T)o;
		check<T>(DSP::Gauss<T>(T(o)), {str("Gauss(%g)", o), [&](ld n, ld M) { ld x = (n - M / 2) / (lo * M / 2); return expl(-x * x / 2); }, 8}, N, idx);
	}
	for (double a : {0.0, 0.5, 1.0, 2.0, 2.5, 3.0}) {
		static std::map<double, ld> cache;
		ld la = (ld)(T)a, &i0 = cache[a];
		if (i0 == 0) i0 = bessel(PI * la);
		check<T>(DSP::Kaiser<T>(T(a)), {str("Kaiser(%g)", a), [&](ld n, ld M) { ld x = 2 * n / M - 1; return bessel(PI * la * sqrtl(1 - x * x)) / i0; }, 6 + 4 * (ld)a}, N, idx);
	}
	mc::step();
}
static void both(int N, const std::vector<int> &idx) { all<float>(N, idx); all<double>(N, idx); }
static void done() { mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst)); mc::describe = nullptr; }

void register_scenarios()
{
	const int top = mc::pick(60, 400, 1500), parts = 16;
	for (int i = 0; i < parts; ++i) mc::scenario(str("all lengths up to %d, part %d of %d", top, i, parts), [=]() {
		trace();
		for (int N = 2 + i; N <= top; N += parts) {
			std::vector<int> idx(N);
			for (int n = 0; n < N; ++n) idx[n] = n;
			both(N, idx);
		}
		done();
	});
	for (int N : {511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 44100, 48000, 65535, 65536, 65537, 1000000, 1 << 24, (1 << 24) + 1}) mc::scenario(str("length %d", N), [=]() {
		trace();
		std::set<int> s;
		for (int k = 0; k <= 400; ++k) s.insert((long long)(N - 1) * k / 400);
		for (int o = 0; o <= 16; ++o) for (int d = -5; d <= 5; ++d) { long long n = (long long)(N - 1) * o / 16 + d; if (n >= 0 && n < N) s.insert(n); }
		both(N, std::vector<int>(s.begin(), s.end()));
		done();
	});
}
