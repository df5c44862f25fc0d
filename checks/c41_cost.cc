// C41: the work done per sample and per array grows as documented
#include "arrays.hh"
#include "movext.hh"
#include "swa.hh"
#include "kahan.hh"
#include "sma.hh"
#include "delay.hh"
#include "deque.hh"
#include "stack.hh"
#include "quick.hh"
#include "fft.hh"

using mc::str;

static std::map<std::string, double> used; // greatest fraction of the allowed work seen
static void use(const std::string &what, double part) { double &u = used[what]; u = max(u, part); }
static void report() { for (auto &u : used) mc::note(str("%s: at most %.0f%% of the allowed work", u.first.c_str(), 100 * u.second)); }

static mc::u64 work; // operations on user-supplied elements or by user-supplied functors since it was last cleared

struct Less { bool operator()(int a, int b) const { ++work; return a < b; } };
struct Greater { bool operator()(int a, int b) const { ++work; return a > b; } };
struct Least { int operator()(int a, int b) const { ++work; return a < b ? a : b; } };

// element that counts how often it is copied, compared and computed with
struct Item
{
	int v;
	Item() : v(0) {}
	Item(int a) : v(a) {}
	Item(const Item &o) : v(o.v) { ++work; }
	Item &operator=(const Item &o) { ++work; v = o.v; return *this; }
	Item &operator+=(const Item &o) { ++work; v = int(unsigned(v) + unsigned(o.v)); return *this; }
	Item &operator-=(const Item &o) { ++work; v = int(unsigned(v) - unsigned(o.v)); return *this; }
	Item operator-() const { ++work; return Item(int(0u - unsigned(v))); }
};
static inline Item operator+(const Item &a, const Item &b) { ++work; return Item(int(unsigned(a.v) + unsigned(b.v))); }
static inline Item operator-(const Item &a, const Item &b) { ++work; return Item(int(unsigned(a.v) - unsigned(b.v))); }
static inline Item operator*(const Item &a, const Item &b) { ++work; return Item(int(unsigned(a.v) * unsigned(b.v))); }
static inline Item operator/(const Item &a, const Item &b) { ++work; return Item(a.v / b.v); }
static inline bool operator<(const Item &a, const Item &b) { ++work; return a.v < b.v; }
static inline bool operator>(const Item &a, const Item &b) { ++work; return a.v > b.v; }
static inline bool operator<=(const Item &a, const Item &b) { ++work; return a.v <= b.v; }
static inline bool operator>=(const Item &a, const Item &b) { ++work; return a.v >= b.v; }
static inline bool operator==(const Item &a, const Item &b) { ++work; return a.v == b.v; }
static inline bool operator!=(const Item &a, const Item &b) { ++work; return a.v != b.v; }
namespace std {
template <> struct numeric_limits<Item>
{
	static constexpr bool is_specialized = true, is_signed = true, is_integer = true, is_exact = true;
	static Item max() { return Item(INT_MAX); }
	static Item min() { return Item(INT_MIN); }
	static Item lowest() { return Item(INT_MIN); }
};
}

// complex number that counts additions and multiplications
struct Cnum
{
	typedef float value_type;
	float re, im;
	constexpr Cnum() : re(0), im(0) {}
	constexpr Cnum(float r) : re(r), im(0) {}
	constexpr Cnum(double r) : re(r), im(0) {}
	constexpr Cnum(long double r) : re(r), im(0) {}
	constexpr Cnum(int r) : re(r), im(0) {}
	constexpr Cnum(float r, float i) : re(r), im(i) {}
	constexpr float real() const { return re; }
	constexpr float imag() const { return im; }
	void real(float r) { re = r; }
	void imag(float i) { im = i; }
	Cnum operator+=(Cnum a) { ++work; re += a.re; im += a.im; return *this; }
	Cnum operator-=(Cnum a) { ++work; re -= a.re; im -= a.im; return *this; }
	Cnum operator*=(float a) { ++work; re *= a; im *= a; return *this; }
	Cnum operator*=(Cnum a) { ++work; return *this = Cnum(re * a.re - im * a.im, re * a.im + im * a.re); }
};
static inline Cnum operator+(Cnum a, Cnum b) { ++work; return Cnum(a.re + b.re, a.im + b.im); }
static inline Cnum operator-(Cnum a, Cnum b) { ++work; return Cnum(a.re - b.re, a.im - b.im); }
static inline Cnum operator-(Cnum a) { return Cnum(-a.re, -a.im); }
static inline Cnum operator+(Cnum a) { return a; }
static inline Cnum operator*(Cnum a, Cnum b) { ++work; return Cnum(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }
static inline Cnum operator*(float a, Cnum b) { ++work; return Cnum(a * b.re, a * b.im); }
static inline Cnum operator*(Cnum b, float a) { ++work; return Cnum(a * b.re, a * b.im); }
static inline Cnum conj(Cnum a) { return Cnum(a.re, -a.im); }

static int log2ceil(int n) { int l = 0; while (1 << l < n) ++l; return l; }

// ---------------------------------------------------------------- streams made of pieces

static int letter(int kind, int i, int n)
{
	switch (kind) {
	case 0: return i;
	case 1: return -i;
	case 2: return 0;
	case 3: return i % max(n, 1) + 1;
	case 4: return -(i % max(n, 1)) - 1;
	case 5: return i & 1 ? 1000000 - i : i - 1000000;
	case 6: return 1000000;
	default: return (int)(i * 2654435761u >> 12) % 1000;
	}
}
static const char *kinds[] = {"up", "down", "zero", "saw", "fall", "zigzag", "high", "mixed"};

// every word of up to the given number of pieces, repeated until the window was filled many times
template <class F>
void words(int n, int pieces, F f)
{
	std::vector<int> lens = {1, max(1, n / 2), n, n + 1, 3 * n};
	std::sort(lens.begin(), lens.end());
	lens.erase(std::unique(lens.begin(), lens.end()), lens.end());
	const int L = lens.size(), K = 8;
	for (int p = 1; p <= pieces; ++p)
		mc::product(std::vector<int>(p, K * L), [&](const std::vector<int> &w) {
			std::vector<int> s;
			auto old = mc::describe;
			mc::describe = [&]() {
				std::string d = str("N=%d, repeated:", n);
				for (int x : w) d += str(" %s*%d", kinds[x / L], lens[x % L]);
				return d;
			};
			while ((int)s.size() < 8 * n + 8)
				for (int x : w)
					for (int i = 0; i < lens[x % L]; ++i) s.push_back(letter(x / L, i, n));
			f((const std::vector<int> &)s);
			++mc::res.traces;
			++mc::res.evals;
			mc::describe = old;
		});
}

// feeds the stream; the work up to every input stays within rate times inputs plus a start worth of work
template <class Impl, class Make>
void feed(const char *what, int n, const std::vector<int> &s, double rate, double start, Make make)
{
	work = 0;
	Impl *o = make();
	mc::u64 peak = 0, last = 0;
	for (int t = 0; t < (int)s.size(); ++t) {
		(void)(*o)(s[t]);
		MC_CHECK(work <= rate * (t + 1) + start, "%s of %d: %llu operations after %d inputs, allowed are %.0f per input and %.0f at the start", what, n, work, t + 1, rate, start);
		mc::step();
		++mc::res.states;
		peak = max(peak, work - last);
		last = work;
	}
	mc::outcome(mc::mix(mc::mix(n, work), peak));
	use(what, work / (rate * s.size() + start));
	if (n >= 64 && mc::want_sample()) mc::sample(str("%s of %d: %llu operations for %zu inputs, at most %llu for one", what, n, work, s.size(), peak));
	delete o;
}

template <int N>
void extrema(int pieces)
{
	words(N, pieces, [](const std::vector<int> &s) {
		typedef DSP::MovExt<int, std::equal_to<int>, Less, N> Mn;
		typedef DSP::MovExt<int, std::equal_to<int>, Greater, N> Mx;
		feed<Mn>("comparisons of the minimum", N, s, 8, 8 * N + 8, []() { return new Mn(INT_MAX); });
		feed<Mx>("comparisons of the maximum", N, s, 8, 8 * N + 8, []() { return new Mx(INT_MIN); });
	});
}

template <int N>
void items(int pieces)
{
	words(N, pieces, [](const std::vector<int> &s) {
		typedef DSP::MovMin<Item, N> Mn;
		typedef DSP::MovMax<Item, N> Mx;
		feed<Mn>("copies and comparisons of the minimum", N, s, 60, 60 * N + 60, []() { return new Mn; });
		feed<Mx>("copies and comparisons of the maximum", N, s, 60, 60 * N + 60, []() { return new Mx; });
	});
}

template <int N>
void trees(int pieces)
{
	const double rate = 2 * log2ceil(2 * N) + 6, start = 8 * N + 8;
	words(N, pieces, [=](const std::vector<int> &s) {
		typedef DSP::SWA<int, Least, N> L;
		feed<L>("reductions of the accelerator", N, s, rate, start, []() { return new L(INT_MAX); });
	});
}

template <int N>
void averages(int pieces)
{
	const double log = log2ceil(2 * N), start = 60 * N + 60;
	words(N, pieces, [=](const std::vector<int> &s) {
		typedef DSP::SMA2<Item, Item, N> S2;
		typedef DSP::SMA2<Item, Item, N, false> S2s;
		typedef DSP::SMA3<Item, Item, N> S3;
		typedef DSP::SMA4<Item, Item, N> S4;
		typedef DSP::Delay<Item, N> D;
		feed<S2>("operations of SMA2", N, s, 40, start, []() { return new S2; });
		feed<S2s>("operations of SMA2", N, s, 40, start, []() { return new S2s; });
		feed<S3>("operations of SMA3", N, s, 100, start, []() { return new S3; });
		feed<S4>("operations of SMA4", N, s, 24 * log + 40, start, []() { return new S4; });
		feed<D>("copies of the delay", N, s, 20, start, []() { return new D(0); });
	});
}

// every operation at every fill level, after every rotation
template <int N>
void containers()
{
	static std::string now;
	mc::describe = []() { return now; };
	auto op = [&](const char *name, int fill, int rot, auto f) {
		now = str("%s at fill %d, rotation %d of %d", name, fill, rot, N);
		work = 0;
		f();
		MC_CHECK(work <= 20, "one operation took %llu copies or comparisons", work);
		mc::step();
		++mc::res.states;
		++mc::res.evals;
		mc::outcome(mc::mix(mc::mix(N, work), std::hash<std::string>()(name)));
		use("operation of a container", work / 20.);
	};
	for (int rot = 0; rot < N; rot += max(1, N / 8)) for (int fill = 0; fill <= N; fill += max(1, N / 8)) {
		static DSP::Deque<Item, N> d;
		d.clear();
		for (int i = 0; i < rot; ++i) { d.push_back(i); d.pop_front(); }
		for (int i = 0; i < fill; ++i) { if (i & 1) d.push_front(i); else d.push_back(i); }
		if (fill < N) {
			op("push_back", fill, rot, [&]() { d.push_back(7); });
			op("pop_back", fill, rot, [&]() { d.pop_back(); });
			op("push_front", fill, rot, [&]() { d.push_front(7); });
			op("pop_front", fill, rot, [&]() { d.pop_front(); });
		}
		if (fill) {
			op("back", fill, rot, [&]() { (void)d.back(); });
			op("front", fill, rot, [&]() { (void)d.front(); });
		}
		op("size_deque", fill, rot, [&]() { (void)d.size(); (void)d.empty(); (void)d.full(); });
		++mc::res.traces;
	}
	for (int fill = 0; fill <= N; fill += max(1, N / 64)) {
		static DSP::Stack<Item, N> s;
		s.clear();
		for (int i = 0; i < fill; ++i) s.push(i);
		if (fill < N) {
			op("push on stack", fill, 0, [&]() { s.push(7); });
			op("pop from stack", fill, 0, [&]() { s.pop(); });
		}
		if (fill) {
			op("top of stack", fill, 0, [&]() { (void)s.top(); });
			op("first of stack", fill, 0, [&]() { (void)s.first(); });
		}
		op("size of stack", fill, 0, [&]() { (void)s.size(); (void)s.empty(); (void)s.full(); });
		++mc::res.traces;
	}
	mc::describe = nullptr;
}

// ---------------------------------------------------------------- arrays

static std::vector<std::function<int(int)>> regular(int n)
{
	return {
		[](int) { return 50; },
		[](int i) { return i; },
		[n](int i) { return n - i; },
		[](int i) { return i & 1; },
		[](int i) { return i % 3; },
		[](int i) { return i % 10; },
		[](int i) { return -(i % 7); },
		[](int i) { return i / 8; },
		[](int i) { return -(i / 8); },
		[n](int i) { return i < n / 2 ? 0 : 1; },
		[n](int i) { return i < n / 2 ? 1 : 0; },
		[n](int i) { return i * 10LL / n; },
		[](int i) { return (int)(i * 2654435761u >> 7) % 1000003; },
		[](int i) { return (int)(i * 2654435761u >> 11) % 17; },
	};
}
static void sorting(int n, int outliers)
{
	static int shape, at, to;
	static bool sel;
	static int rank;
	static int len;
	len = n;
	mc::describe = []() { return str("n=%d, shape %d, element %d set to %d%s", len, shape, at, to, sel ? str(", rank %d", rank).c_str() : ""); };
	auto all = regular(n);
	for (shape = 0; shape < (int)all.size(); ++shape)
		for (int o = 0; o <= outliers; ++o) for (int d = 0; d < (o ? 2 : 1); ++d) {
			std::vector<Item> a(n);
			for (int i = 0; i < n; ++i) a[i].v = all[shape](i);
			at = o ? (int)((n - 1LL) * (o - 1) / max(1, outliers - 1)) : -1;
			to = d ? 2000000 : -2000000;
			if (o) a[at].v = to;
			std::vector<Item> b(a);
			sel = false;
			work = 0;
			DSP::quick_sort(b.data(), n);
			double most = 40. * n * (log2ceil(n) + 1) + 40;
			if (n <= 64) most += 8. * n * n; // short arrays may be sorted by insertion
			MC_CHECK(work <= most, "sorting took %llu copies and comparisons, allowed are %.0f", work, most);
			mc::step();
			++mc::res.evals; ++mc::res.traces; ++mc::res.states;
			mc::outcome(mc::mix(n, work));
			use(n <= 64 ? "sorting short arrays" : "sorting", work / most);
			if (n >= 1000 && mc::want_sample()) mc::sample(str("sorting %d elements of shape %d: %llu copies and comparisons", n, shape, work));
			for (int r : {0, min(1, n - 1), n / 4, n / 2, n - 1 - n / 4, n - 1}) {
				b = a;
				sel = true;
				rank = r;
				work = 0;
				(void)DSP::quick_select(b.data(), r, n);
				double bound = most; // no more than sorting
				MC_CHECK(work <= bound, "selecting took %llu copies and comparisons, allowed are %.0f", work, bound);
				use("selecting", work / bound);
				mc::step();
				++mc::res.evals; ++mc::res.traces; ++mc::res.states;
				mc::outcome(mc::mix(n, work));
			}
		}
	mc::describe = nullptr;
}

// ---------------------------------------------------------------- transforms

static int factors(int n) { int s = 0; for (int p = 2; n > 1; ++p) while (n % p == 0) { s += p + 8; n /= p; } return s; }

template <int N>
void transform()
{
	static Cnum in[N], out[N];
	for (int s = -1; s <= 1; s += 2) {
		for (int i = 0; i < N; ++i) in[i] = Cnum(float(i % 7 - 3), float(i % 5 - 2));
		static DSP::FastFourierTransform<N, Cnum, 1> inv;
		static DSP::FastFourierTransform<N, Cnum, -1> fwd;
		work = 0;
		if (s > 0) inv(out, in); else fwd(out, in);
		double most = 4. * N * factors(N) + 16;
		MC_CHECK(work <= most, "transform of length %d took %llu complex operations, allowed are %.0f", N, work, most);
		mc::step();
		++mc::res.evals; ++mc::res.traces; ++mc::res.states;
		mc::outcome(mc::mix(N, work));
		use("transform", work / most);
		if (N >= 1000 && mc::want_sample()) mc::sample(str("transform of length %d: %llu complex operations", N, work));
	}
}
template <int... N> void transforms() { (transform<N>(), ...); }

void register_scenarios()
{
	using mc::scenario;
	scenario("extrema", []() { extrema<1>(2); extrema<2>(2); extrema<3>(2); extrema<16>(mc::pick(2, 3, 3)); extrema<33>(mc::pick(1, 3, 3)); extrema<64>(mc::pick(1, 2, 3)); extrema<100>(mc::pick(1, 2, 3)); extrema<257>(mc::pick(1, 2, 2)); extrema<1000>(mc::pick(1, 2, 2)); extrema<10000>(1); report(); });
	scenario("trees", []() { trees<1>(1); trees<2>(1); trees<3>(1); trees<5>(2); trees<16>(mc::pick(1, 2, 3)); trees<17>(mc::pick(1, 2, 3)); trees<63>(mc::pick(1, 2, 2)); trees<64>(mc::pick(1, 2, 2)); trees<100>(mc::pick(1, 2, 2)); trees<257>(1); trees<1000>(1); trees<1024>(1); trees<5000>(mc::pick(1, 1, 1)); report(); });
	scenario("extrema of items", []() { items<1>(2); items<2>(2); items<16>(mc::pick(1, 2, 2)); items<100>(mc::pick(1, 2, 2)); items<129>(mc::pick(1, 2, 2)); items<1000>(1); items<4096>(mc::pick(1, 1, 1)); report(); }); // exotic
	scenario("averages", []() { averages<1>(1); averages<2>(1); averages<16>(mc::pick(1, 2, 2)); averages<100>(1); averages<128>(1); averages<1000>(1); averages<1024>(1); averages<4097>(1); report(); }); // exotic
	scenario("containers", []() { containers<1>(); containers<2>(); containers<3>(); containers<30>(); containers<64>(); containers<100>(); containers<1000>(); containers<4096>(); report(); }); // exotic
	scenario("sorting", []() { // exotic
		for (int n = 1; n <= 300; ++n) sorting(n, 9); // exotic
		for (int n : {500, 1000, 1024, 2000, 4096, 10000}) sorting(n, mc::pick(3, 9, 33)); // exotic
		for (int n : {65536, 100000, 300000, 1000000}) sorting(n, mc::pick(0, 3, 5)); // exotic
		report(); // exotic
	}); // exotic
	scenario("transforms", []() { transforms<2, 3, 4, 5, 7, 8, 11, 13, 16, 17, 19, 23, 29, 31, 32, 64, 100, 105, 128, 180, 256, 361, 512, 600, 961, 1000, 1024, 1920, 2048, 2310, 4096, 5000, 8192, 8000>(); report(); }); // exotic
}
