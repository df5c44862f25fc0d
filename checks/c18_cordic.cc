// C18: CORDIC atan2 for all coordinates
#include "mc.hh"
#include "cordic.hh"

using mc::str;

static int cx, cy;
static double worst[2];
static void trace() { mc::describe = []() { return str("y=%d x=%d", cy, cx); }; }
template <class T> __attribute__((noinline)) T lib(T y, T x) { return DSP::CORDIC<T>::atan2(y, x); }

template <class T>
inline void pair(int y, int x)
{
	cy = y; cx = x;
	const int BITS = 8 * sizeof(T);
	const double half = 1 << (BITS - 1); // half a turn
	int g = lib<T>(y, x);
	if (x || y) {
		double r2 = (double)x * x + (double)y * y, r = std::sqrt(r2);
		double want = std::atan2((double)y, (double)x) * (half / M_PI);
		double d = g - want;
		if (d < -half) d += 2 * half;
		if (d > half) d -= 2 * half;
		if (d < 0) d = -d;
		// quantization of the inputs: up to one step of the coordinates seen from the origin
		double lsb = half / M_PI / r;
		double tol = sizeof(T) == 1 ? 1 + lsb : 1.25 + 2.8 * lsb;
		int k = r2 >= half * half / 4 ? 0 : 1;
		if (d > worst[k] * tol) worst[k] = d / tol;
		if (!(d <= tol)) MC_FAIL("angle is %d instead of %.3f, tolerance %.3f", g, want, tol);
	}
	++mc::res.evals;
}
static void done()
{
	mc::note(str("%s: at most %.3f of the tolerance at large and %.3f at small magnitudes", mc::cur_name.c_str(), worst[0], worst[1]));
	mc::describe = nullptr;
}
static void chars()
{
	trace();
	for (int y = -128; y < 128; ++y) for (int x = -128; x < 128; ++x) { pair<signed char>(y, x); mc::step(); mc::outcome(mc::mix(lib<signed char>(y, x), 1)); }
	done();
}
static void shorts(const std::vector<int> &ys, const std::vector<int> &xs, int part, int parts)
{
	trace();
	for (size_t i = part; i < ys.size(); i += parts) {
		for (int x : xs) pair<short>(ys[i], x);
		mc::step();
		mc::outcome(mc::mix(lib<short>(ys[i], 12345), ys[i]));
	}
	done();
}
static std::vector<int> every(int stride, int around)
{
	std::set<int> s;
	for (int v = -32768; v <= 32768; v += stride) for (int d = -around; d <= around; ++d) if (v + d >= -32768 && v + d <= 32767) s.insert(v + d);
	for (int k = 0; k <= 15; ++k) for (int d = -1; d <= 1; ++d) for (int m : {-1, 1}) { int v = m * (1 << k) + d; if (v >= -32768 && v <= 32767) s.insert(v); }
	return std::vector<int>(s.begin(), s.end());
}

void register_scenarios()
{
	mc::scenario("all 8-bit pairs", chars);
	const int parts = mc::san ? 16 : 64;
	for (int i = 0; i < parts; ++i) mc::scenario(str("16-bit pairs, part %d of %d", i, parts), [=]() {
		std::vector<int> v = mc::san ? every(601, 0) : every(1, 0), w = mc::san ? v : every(1, 0);
		if (v.size() < 65536) mc::res.exhaustive = false;
		shorts(v, w, i, parts);
	});
	mc::scenario("16-bit pairs of small magnitude", []() {
		std::vector<int> v;
		const int r = mc::pick(40, 1500, 4000);
		for (int i = -r; i <= r; ++i) v.push_back(i);
		shorts(v, v, 0, 1);
	});
}
