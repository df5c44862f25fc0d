// C16: unit circle and constants against long double
#include "mc.hh"
#include "const.hh"
#include "unit_circle.hh"

using mc::str;
typedef mc::ld ld;

static int cn, cN;
static double worst[3];
static void trace() { mc::describe = []() { return str("n=%d N=%d", cn, cN); }; }

template <class T>
inline void point(int n, int N, ld c, ld s)
{
	cn = n; cN = N;
	typedef DSP::UnitCircle<T> U;
	const ld e = mc::eps<T>();
	ld gc = U::cos(n, N), gs = U::sin(n, N), gr = U::rad(n, N), r = 2 * acosl(-1) * n / N;
	ld dc = gc - c, ds = gs - s, dr = gr - r;
	if (dc < 0) dc = -dc;
	if (ds < 0) ds = -ds;
	if (dr < 0) dr = -dr;
	worst[0] = max(worst[0], (double)(dc / e));
	worst[1] = max(worst[1], (double)(ds / e));
	if (r != 0) worst[2] = max(worst[2], (double)(dr / (r < 0 ? -r : r) / e));
	MC_CHECK(mc::finite_bits((T)gc) && dc <= 2 * e, "cosine is %.17g instead of %.17g", (double)gc, (double)c);
	MC_CHECK(mc::finite_bits((T)gs) && ds <= 2 * e, "sine is %.17g instead of %.17g", (double)gs, (double)s);
	MC_CHECK(mc::finite_bits((T)gr) && dr <= 3 * e * (r < 0 ? -r : r), "angle is %.17g instead of %.17g", (double)gr, (double)r);
	++mc::res.evals;
	if (mc::res.evals % 64 == 1) mc::outcome(mc::mix(mc::mix(mc::bits((T)gc), mc::bits((T)gs)), N));
}
static void both(int n, int N)
{
	// first octant in long double, then exact symmetries
	ld a = 2 * acosl(-1) * n / N, c = cosl(a), s = sinl(a);
	point<float>(n, N, c, s);
	point<double>(n, N, c, s);
}
static void done()
{
	mc::step();
	mc::note(str("%s: largest error in epsilon: cosine %.3f sine %.3f, angle %.3f (relative)", mc::cur_name.c_str(), worst[0], worst[1], worst[2]));
	mc::describe = nullptr;
}
static void all(int lo, int hi, int step)
{
	trace();
	for (int N = lo; N <= hi; N += step) {
		for (int n = -N; n <= N; ++n) both(n, N);
		mc::step();
	}
	done();
}
// large circles: around every octant boundary and spread over the circle
static void large()
{
	trace();
	std::set<int> Ns;
	for (int k = 11; k <= 27; ++k) for (int d = -9; d <= 9; ++d) for (int m : {1, 3, 5}) {
		long long N = (m == 1 ? 1LL << k : m == 3 ? 3LL << k >> 2 : 5LL << k >> 3) + d;
		if (N > 0 && N <= 1 << 27) Ns.insert(N);
	}
	for (int N : {8000, 11025, 44100, 48000, 96000, 192000, 1000000, 10000000, 100000000, 99999989, 134217689, 65521, 9999991}) Ns.insert(N);
	for (int N : Ns) {
		for (int o = -8; o <= 8; ++o) for (int d = -12; d <= 12; ++d) {
			long long n = (long long)o * N / 8 + d;
			if (n >= -N && n <= N) both(n, N);
		}
		for (int k = -100; k <= 100; ++k) both((long long)N * k / 100, N);
		mc::step();
	}
	done();
}
template <class T>
void constant(const char *name, ld got, ld want)
{
	if (std::is_same<T, ld>::value) {
		ld d = got - want;
		MC_CHECK((d < 0 ? -d : d) <= std::numeric_limits<ld>::epsilon() * want, "%s is %.20Lg instead of %.20Lg", name, got, want);
	} else {
		volatile T r = (T)want; // -ffast-math drops the rounding to T otherwise
		MC_CHECK(got == (ld)r, "%s is %.20Lg instead of %.20Lg", name, got, (ld)r);
	}
	++mc::res.evals;
	mc::step();
}
template <class T>
void constants()
{
	typedef DSP::Const<T> K;
	const ld pi = 3.14159265358979323846264338327950288L;
	constant<T>("EighthPi", K::EighthPi(), pi / 8);
	constant<T>("FourthPi", K::FourthPi(), pi / 4);
	constant<T>("HalfPi", K::HalfPi(), pi / 2);
	constant<T>("Pi", K::Pi(), pi);
	constant<T>("TwoPi", K::TwoPi(), pi * 2);
	constant<T>("FourPi", K::FourPi(), pi * 4);
	constant<T>("SqrtPi", K::SqrtPi(), sqrtl(pi));
	constant<T>("SqrtTwoPi", K::SqrtTwoPi(), sqrtl(2 * pi));
	constant<T>("InvSqrtTwo", K::InvSqrtTwo(), sqrtl(0.5L));
}

void register_scenarios()
{
	using mc::scenario;
	scenario("constants", []() { constants<float>(); constants<double>(); constants<ld>(); });
	scenario("large circles", large);
	const int top = mc::pick(256, 6000, 12000), chunks = 16;
	for (int i = 0; i < chunks; ++i) scenario(str("all N up to %d, residue %d of %d", top, i, chunks), [i, top]() { all(1 + i, top, chunks); });
}
