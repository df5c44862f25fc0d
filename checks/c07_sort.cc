// C07: quick_sort returns the sorted permutation of its input
#include "arrays.hh"
#include "quick.hh"

using mc::str;

template <class T>
void one(const arrays::A &a)
{
	const int n = a.size();
	Guarded<T> g(a);
	mc::u64 bag = g.bag(n);
	DSP::quick_sort(g.p, n);
	for (int i = 1; i < n; ++i) MC_CHECK(!(g.p[i] < g.p[i - 1]), "n=%d: out of order at %d", n, i);
	MC_CHECK(g.bag(n) == bag, "n=%d: not a permutation of the input", n);
	g.check(n);
	mc::step();
	++mc::res.evals;
	++mc::res.traces;
	mc::outcome(bag);
}

template <class T>
arrays::F with()
{
	static arrays::A cur;
	mc::describe = []() { return show(cur); };
	return [](const arrays::A &a) { cur = a; one<T>(a); };
}

void register_scenarios()
{
	using mc::scenario;
#define TYPE(T) \
	scenario("small " #T, []() { auto f = with<T>(); arrays::all_small(mc::pick(6, 10, 12), 3, f); arrays::all_small(mc::pick(4, 6, 7), 6, f); arrays::permutations(mc::pick(6, 9, 10), f); }); \
	scenario("samples " #T, []() { auto f = with<T>(); for (int n : {33, 34, 35, 36, 37, 40, 65}) if (n < 37 || !mc::san) arrays::samples(n, f); }); \
	scenario("segments " #T, []() { auto f = with<T>(); for (int n : {32, 33, 34, 36}) arrays::segments(n, 3, mc::pick(3, 1, 1), f); for (int n : {65, 70, 100, 128}) arrays::segments(n, 3, mc::pick(11, 3, 1), f); }); \
	scenario("multiplicities " #T, []() { auto f = with<T>(); for (int n : {31, 32, 33, 34, 35, 36, 40, 48, 64, 66, 67, 100, 150, 200}) arrays::multiplicities(n, n < 50 || mc::thorough() ? 1 : 3, f); }); \
	scenario("deviations " #T, []() { auto f = with<T>(); for (int n = 1; n <= 130; ++n) arrays::deviations(n, 1, mc::san ? 5 : 1, f); }); \
	scenario("pairs of deviations " #T, []() { auto f = with<T>(); for (int n : {20, 33, 34, 35, 41}) arrays::deviations(n, 2, mc::pick(5, 1, 1), f); if (mc::thorough()) for (int n : {66, 70, 99}) arrays::deviations(n, 2, 1, f); }); \
	scenario("large " #T, []() { auto f = with<T>(); for (int n : {200, 255, 256, 257, 500, 1000, 1024, 3000}) arrays::deviations(n, 1, max(1, n / (mc::san ? 7 : 31)), f); for (int n : {10000, 65537, 200000}) if (n <= 10000 || !mc::san) arrays::deviations(n, 0, 1, f); });
#if PART == 0
	scenario("adversary", []() { // exotic
		auto f = with<int>(); // exotic
		for (int n : {33, 34, 40, 66, 100, 200, 500, 1000, 2000, 5000}) adversary(n, [](Foe *p, int m) { DSP::quick_sort(p, m); }, f); // exotic
	}); // exotic
	TYPE(int)
	TYPE(Elem) // exotic
#else
	TYPE(float)
#if !MC_SAN
	TYPE(double)
	TYPE(unsigned) // exotic
#endif
	TYPE(short) // exotic
#endif
}
