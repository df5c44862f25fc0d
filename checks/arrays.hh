// Enumerations of array contents for the sorting and selecting checks. Values are small ints ("codes"),
// mapped to the element type by the user.
#pragma once
#include "mc.hh"

namespace arrays {

typedef std::vector<int> A;
typedef std::function<void(const A &)> F;

inline void all_small(int maxlen, int values, F f)
{
	for (int n = 0; n <= maxlen; ++n)
		mc::product(A(n, values), [&](const std::vector<int> &v) { f(v); });
}
inline void permutations(int maxlen, F f)
{
	for (int n = 1; n <= maxlen; ++n) {
		A a(n);
		for (int i = 0; i < n; ++i) a[i] = i;
		do f(a); while (std::next_permutation(a.begin(), a.end()));
	}
}
// sampled positions of a median of five over the whole array hold every combination of five values, including ties
inline void samples(int n, F f)
{
	std::vector<std::function<int(int)>> base = {
		[](int) { return 2; }, [n](int i) { return i * 5 / n; }, [n](int i) { return (n - 1 - i) * 5 / n; },
		[](int i) { return i * 7 % 5; }, [](int i) { return i & 1 ? 0 : 4; }, [](int i) { return i & 1 ? 1 : 3; } };
	int half = (n - 1) / 2, quarter = (n - 1) / 4;
	int pos[5] = {0, quarter, half, half + quarter, n - 1};
	for (auto &b : base) {
		A a(n);
		for (int i = 0; i < n; ++i) a[i] = b(i);
		mc::product(A(5, 5), [&](const std::vector<int> &v) {
			for (int i = 0; i < 5; ++i) a[pos[i]] = v[i];
			f(a);
		});
	}
}
// all piecewise constant arrays of up to three pieces over the values
inline void segments(int n, int values, int step, F f)
{
	A a(n);
	for (int i = 0; i <= n; i += step) for (int j = i; j <= n; j += step)
		mc::product(A(3, values), [&](const std::vector<int> &v) {
			for (int k = 0; k < n; ++k) a[k] = k < i ? v[0] : k < j ? v[1] : v[2];
			f(a);
		});
}
inline std::vector<std::function<int(int)>> shapes(int n)
{
	return {
		[](int) { return 50; },
		[](int i) { return i; },
		[n](int i) { return n - i; },
		[n](int i) { return i < n / 2 ? i : n - i; },
		[n](int i) { return i < n / 2 ? n - i : i; },
		[](int i) { return i & 1; },
		[](int i) { return i % 3; },
		[](int i) { return i % 10; },
		[](int i) { return -(i % 7); },
		[n](int i) { return i & 1 ? i : n - i; },
		[n](int i) { return i & 1 ? i : i - n; },
		[](int i) { return (int)(i * 2654435761u >> 7) % 1000003; },
		[](int i) { return (int)(i * 2654435761u >> 11) % 17; },
		[](int i) { return int(i * 40503u & 0xffff); },
		[](int i) { return i ^ 21; },
		[](int i) { return i / 8; },
		[](int i) { return -(i / 8); },
		[n](int i) { return i < n - 3 ? i : -1; },
		[n](int i) { return i >= 3 ? i : n + 1; },
		[](int i) { return __builtin_popcount(i); },
		[](int i) { int r = 0; for (int b = 0; b < 12; ++b) r |= (i >> b & 1) << (11 - b); return r; },
		[n](int i) { return int(i * (n / 2 + 1LL) % n); },
	};
}
// the shapes, each with up to two deviating elements at any positions
inline void deviations(int n, int count, int step, F f)
{
	A a(n);
	for (auto &s : shapes(n)) {
		for (int i = 0; i < n; ++i) a[i] = s(i);
		f(a);
		if (!count) continue;
		int mid = a[n / 2];
		for (int i = 0; i < n; i += step) for (int d : {-1000000, 1000000, mid}) {
			int keep = a[i];
			a[i] = d;
			f(a);
			if (count > 1)
				for (int j = i + 1; j < n; j += step) for (int e : {-1000001, 1000001, mid}) {
					int keep2 = a[j];
					a[j] = e;
					f(a);
					a[j] = keep2;
				}
			a[i] = keep;
		}
	}
}
// arrays with every pair of multiplicities: i copies of the least, j of the greatest value, in three arrangements
inline void multiplicities(int n, int step, F f)
{
	A a(n);
	for (int i = 0; i <= n; i += step) for (int j = 0; i + j <= n; j += step)
		for (int arr = 0; arr < 4; ++arr) {
			for (int k = 0; k < n; ++k) {
				int p = arr == 0 ? k : arr == 1 ? n - 1 - k : arr == 2 ? (k & 1 ? n - 1 - k / 2 : k / 2) : (int)((long long)k * 7919 % n);
				a[p] = k < i ? 0 : k >= n - j ? 2 : 1;
			}
			if (arr == 3 && n % 7919 == 0) continue;
			f(a);
		}
}

} // namespace arrays

// element with identity: equal keys are told apart by their tags
struct Elem
{
	int key, tag;
	bool operator<(const Elem &o) const { return key < o.key; }
	bool operator>(const Elem &o) const { return key > o.key; }
	bool operator<=(const Elem &o) const { return key <= o.key; }
	bool operator>=(const Elem &o) const { return key >= o.key; }
	bool operator==(const Elem &o) const { return key == o.key; }
	bool operator!=(const Elem &o) const { return key != o.key; }
};

template <class T> inline T make_elem(int code, int) { return T(code); }
template <> inline float make_elem<float>(int code, int) { return code * 0.37f; }
template <> inline double make_elem<double>(int code, int) { return code * 1e100; }
template <> inline signed char make_elem<signed char>(int code, int) { return code > 1000 ? 127 : code < -1000 ? -128 : code % 100; }
template <> inline unsigned make_elem<unsigned>(int code, int) { return unsigned(code) * 977u + 0x7fffffffu; }
template <> inline Elem make_elem<Elem>(int code, int i) { return {code, i}; }
template <class T> inline mc::u64 id(T v) { return mc::mix(1, mc::bits(v)); }
inline mc::u64 id(Elem e) { return mc::mix(mc::mix(1, e.key), e.tag); }

template <class T> struct Guarded
{
	static const int G = 4;
	std::vector<T> v;
	T *p;
	Guarded(const arrays::A &a) : v(a.size() + (MC_SAN ? 0 : 2 * G))
	{
		p = v.data() + (MC_SAN ? 0 : G); // sanitized builds have red zones instead
		for (size_t i = 0; i < a.size(); ++i) p[i] = make_elem<T>(a[i], i);
		if (!MC_SAN) for (int i = 0; i < G; ++i) { v[i] = canary(i); p[a.size() + i] = canary(i + G); }
	}
	static T canary(int i) { return make_elem<T>((i & 1 ? 1 : -1) * (77 + i), -1 - i); }
	void check(int n)
	{
		if (MC_SAN) return;
		for (int i = 0; i < G; ++i)
			MC_CHECK(id(v[i]) == id(canary(i)) && id(p[n + i]) == id(canary(i + G)), "element outside of the array was changed (n=%d)", n);
	}
	mc::u64 bag(int n) { mc::u64 h = 0; for (int i = 0; i < n; ++i) h += id(p[i]); return h; }
};

inline std::string show(const arrays::A &a)
{
	std::string s = mc::str("n=%zu:", a.size());
	for (size_t i = 0; i < a.size() && i < 300; ++i) s += mc::str(" %d", a[i]);
	return s;
}

// elements whose order an adversary decides while they are compared, so that every pivot turns out to be a bad one
struct Foe
{
	int i;
	static inline std::vector<int> val;
	static inline int gas, solid, candidate;
	static int cmp(int x, int y)
	{
		if (val[x] == gas && val[y] == gas) val[x == candidate ? x : y] = solid++;
		if (val[x] == gas) candidate = x;
		else if (val[y] == gas) candidate = y;
		return val[x] - val[y];
	}
	bool operator<(const Foe &o) const { return i != o.i && cmp(i, o.i) < 0; }
	bool operator>(const Foe &o) const { return i != o.i && cmp(i, o.i) > 0; }
	bool operator<=(const Foe &o) const { return i == o.i || cmp(i, o.i) <= 0; }
	bool operator>=(const Foe &o) const { return i == o.i || cmp(i, o.i) >= 0; }
	bool operator==(const Foe &o) const { return i == o.i || cmp(i, o.i) == 0; }
	bool operator!=(const Foe &o) const { return !(*this == o); }
};
// runs the algorithm against the adversary and hands on the orders it came up with, and their mirror images
inline void adversary(int n, std::function<void(Foe *, int)> algorithm, arrays::F f)
{
	std::vector<Foe> foe(n);
	for (int i = 0; i < n; ++i) foe[i].i = i;
	Foe::val.assign(n, Foe::gas = n + 1);
	Foe::solid = Foe::candidate = 0;
	algorithm(foe.data(), n);
	for (int order : {1, -1, 7}) {
		arrays::A a = Foe::val;
		int next = Foe::solid;
		for (int i = 0; i < n; ++i) {
			int j = order == 7 ? i * 2654435761u % n : order > 0 ? i : n - 1 - i;
			if (a[j] == Foe::gas) a[j] = next++;
		}
		f(a);
		for (int &v : a) v = n - v;
		f(a);
	}
}
