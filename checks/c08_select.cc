// C08: quick_select returns the k-th smallest and partitions around it
#include "arrays.hh"
#include "quick.hh"

using mc::str;

static int cur_k;

template <class T>
void one(const arrays::A &a, int k)
{
	const int n = a.size();
	cur_k = k;
	Guarded<T> g(a);
	mc::u64 bag = g.bag(n);
	T r = DSP::quick_select(g.p, k, n);
	int less = 0, same = 0;
	for (int i = 0; i < n; ++i) {
		if (g.p[i] < r) { ++less; MC_CHECK(i < k, "smaller element at %d after rank %d", i, k); }
		else if (r < g.p[i]) MC_CHECK(i > k, "greater element at %d before rank %d", i, k);
		else ++same;
	}
	MC_CHECK(less <= k && k < less + same, "n=%d k=%d: result has rank %d to %d", n, k, less, less + same - 1);
	MC_CHECK(!(g.p[k] < r) && !(r < g.p[k]), "result is not at its index");
	MC_CHECK(g.bag(n) == bag, "n=%d k=%d: not a permutation of the input", n, k);
	g.check(n);
	mc::step();
	++mc::res.evals;
	++mc::res.traces;
	mc::outcome(mc::mix(bag, k));
}

// all ranks, or the ranks around the ends, quarters and the middle
template <class T>
arrays::F with(bool all)
{
	static arrays::A cur;
	mc::describe = []() { return str("k=%d ", cur_k) + show(cur); };
	return [all](const arrays::A &a) {
		cur = a;
		const int n = a.size();
		if (all || n < 8) { for (int k = 0; k < n; ++k) one<T>(a, k); return; }
		int last = -1;
		for (int k : {0, 1, n / 4, n / 2 - 1, n / 2, n / 2 + 1, 3 * n / 4, n - 2, n - 1}) if (k > last) { one<T>(a, k); last = k; }
	};
}

void register_scenarios()
{
	using mc::scenario;
#define TYPE(T) \
	scenario("small " #T, []() { auto f = with<T>(true); arrays::all_small(mc::pick(5, 7, 9), 3, f); arrays::all_small(mc::pick(4, 5, 6), 6, f); arrays::permutations(mc::pick(5, 7, 9), f); }); \
	scenario("samples " #T, []() { auto f = with<T>(false); for (int n : {33, 34, 35, 36, 37, 40, 65}) if (n < 35 || !mc::san) arrays::samples(n, f); }); \
	scenario("segments " #T, []() { auto f = with<T>(false); for (int n : {32, 33, 34, 36}) arrays::segments(n, 3, mc::pick(3, 1, 1), f); for (int n : {65, 70, 100, 128}) arrays::segments(n, 3, mc::pick(13, 5, 1), f); }); \
	scenario("segments all ranks " #T, []() { auto f = with<T>(true); for (int n : {33, 35, 66, 101}) arrays::segments(n, 3, mc::pick(17, 6, 2), f); }); \
	scenario("multiplicities " #T, []() { auto f = with<T>(true); for (int n : {31, 32, 33, 34, 35, 36, 40, 48, 64, 66, 67, 100, 150, 200}) arrays::multiplicities(n, mc::pick(n < 50 ? 5 : n / 3, n < 50 ? 1 : 7, n < 50 ? 1 : 3), f); }); \
	scenario("shapes all ranks " #T, []() { auto f = with<T>(true); for (int n = 1; n <= (mc::san ? 100 : 300); n += mc::san ? 3 : 1) arrays::deviations(n, 0, 1, f); }); \
	scenario("deviations " #T, []() { auto f = with<T>(false); for (int n = 1; n <= 130; n += mc::san ? 7 : 1) arrays::deviations(n, 1, mc::san ? 5 : 2, f); }); \
	scenario("pairs of deviations " #T, []() { auto f = with<T>(false); for (int n : {33, 34, 41}) arrays::deviations(n, 2, mc::pick(8, 3, 1), f); }); \
	scenario("large " #T, []() { auto f = with<T>(false); for (int n : {255, 256, 257, 500, 1000, 1024, 3000}) arrays::deviations(n, 1, max(1, n / (mc::san ? 3 : 17)), f); for (int n : {10000, 65537, 200000}) if (n <= 10000 || !mc::san) arrays::deviations(n, 0, 1, f); });
#if PART == 0
	scenario("adversary", []() { // exotic
		auto f = with<int>(false); // exotic
		for (int n : {33, 34, 40, 66, 100, 200, 500, 1000, 2000}) for (int k : {0, n / 4, n / 2, n - n / 8, n - 1}) adversary(n, [=](Foe *p, int m) { DSP::quick_select(p, k, m); }, f); // exotic
	}); // exotic
	TYPE(int)
	TYPE(Elem) // exotic
#else
	TYPE(float)
#if !MC_SAN
	TYPE(double)
	TYPE(unsigned) // exotic
#endif
	TYPE(short) // exotic
#endif
}
