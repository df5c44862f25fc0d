// C05: the sliding window accelerator against folding the last N inputs
#include "mc.hh"
#include "swa.hh"

using mc::str;
typedef std::vector<int> Model;
typedef unsigned long long U;

struct Plus { U operator()(U a, U b) const { return a + b; } };
struct Xor { U operator()(U a, U b) const { return a ^ b; } };
struct Times { U operator()(U a, U b) const { return a * b; } };
struct Min { U operator()(U a, U b) const { return a < b ? a : b; } };
struct Max { U operator()(U a, U b) const { return a > b ? a : b; } };
struct Gcd { U operator()(U a, U b) const { while (b) { U t = a % b; a = b; b = t; } return a; } };

template <class OP, int N>
void bfs(U ident, std::vector<U> alpha)
{
	typedef DSP::SWA<U, OP, N> D;
	mc::Bfs<D, Model> b;
	b.make = [=](mc::Arena<D> &a, int poison) -> D & { return a.make(poison, ident); };
	b.key = [](const Model &m) { std::string s("|"); for (int v : m) s += char('a' + v); return s; };
	b.check = [](D &, const Model &) {};
	for (int v = 0; v < (int)alpha.size(); ++v)
		b.ops.push_back({str("in(%llu)", alpha[v]), nullptr, [=](D &d, Model &m) {
			U out = d(alpha[v]);
			if ((int)m.size() == N) m.erase(m.begin());
			m.push_back(v);
			U e = ident;
			for (int i : m) e = OP()(e, alpha[i]);
			MC_CHECK(out == e, "N=%d: got %llu, expected %llu", N, out, e);
		}});
	b.max_states = mc::pick<mc::u64>(10000, 60000, 1000000);
	for (int poison : {0x00, 0x4B}) b.run(poison);
}

static U hash(U t) { return mc::mix(0x1234567, t * 2 + 1); }

// every contribution is identified by a distinct 64 bit value (and, for short windows, by a bit of its own)
template <class OP, int N>
void stream(const char *name, U ident, std::function<U(U)> val)
{
	typedef DSP::SWA<U, OP, N> D;
	static mc::Arena<D> arena;
	U t = 0;
	int poison = 0;
	mc::describe = [&]() { return str("N=%d %s poison=%02x step %llu", N, name, poison, t); };
	for (poison = 0; poison < 256; poison += 0x4B) {
		D &d = arena.make(poison, ident);
		for (t = 0; t < U(4 * N + 5); ++t) {
			U out = d(val(t)), e = ident;
			for (U k = t >= N ? t - N + 1 : 0; k <= t; ++k) e = OP()(e, val(k));
			MC_CHECK(out == e, "N=%d %s: got %llx, expected %llx", N, name, out, e);
			mc::step();
			++mc::res.states;
			mc::outcome(out);
		}
		++mc::res.traces;
	}
	mc::describe = nullptr;
}

template <int N>
void all_ops()
{
	stream<Plus, N>("plus hashes", 0, hash);
	stream<Xor, N>("xor hashes", 0, hash);
	stream<Plus, N>("plus ones", 0, [](U) { return U(1); });
	stream<Xor, N>("xor bits", 0, [](U t) { return U(1) << (t % 61); });
	stream<Plus, N>("plus bits", 0, [](U t) { return U(1) << (t % 61); });
	stream<Times, N>("product", 1, [](U t) { return hash(t) | 1; });
	stream<Max, N>("max hashes", 0, hash);
	stream<Min, N>("min hashes", ~0ull, hash);
	stream<Max, N>("max falling", 0, [](U t) { return 1000000 - t; });
	stream<Min, N>("min rising", ~0ull, [](U t) { return t; });
	stream<Gcd, N>("gcd", 0, [](U t) { return U(2 * 3 * 5 * 7 * 11) * (1 + t % 13) / (t % 3 ? 1 : 7); });
}
template <int LO, int... I> void range(std::integer_sequence<int, I...>) { (all_ops<LO + I>(), ...); }

// large windows with a running reference
template <int N>
void large(int len = 4 * N + 5)
{
	typedef DSP::SWA<U, Plus, N> D;
	static mc::Arena<D> arena;
	U t = 0, e = 0;
	mc::describe = [&]() { return str("N=%d sum of hashes step %llu", N, t); };
	D &d = arena.make(0x4B, U(0));
	for (; t < U(len); ++t) {
		e += hash(t);
		if (t >= U(N)) e -= hash(t - N);
		U out = d(hash(t));
		MC_CHECK(out == e, "N=%d: got %llx, expected %llx", N, out, e);
		mc::step();
		++mc::res.states;
		mc::outcome(out);
	}
	++mc::res.traces;
	mc::describe = nullptr;
}
template <int LO, int... I> void longs(int len, std::integer_sequence<int, I...>) { (large<LO + I>(len), ...); }
template <int LO, int... I> void larges(std::integer_sequence<int, I...>) { (large<LO + I>(), ...); }

// deviations: one or two non-identity inputs at every position of an otherwise neutral stream
template <int N>
void impulses()
{
	typedef DSP::SWA<U, Plus, N> D;
	static mc::Arena<D> arena;
	int i = 0, j = 0, t = 0;
	mc::describe = [&]() { return str("N=%d non-zero inputs at %d and %d, step %d", N, i, j, t); };
	for (i = 0; i < 2 * N + 1; ++i) for (j = i; j < min(2 * N + 1, i + N + 2); ++j) {
		D &d = arena.make(0, U(0));
		for (t = 0; t < 4 * N + 2; ++t) {
			U in = t == j ? 256 : t == i ? 1 : 0;
			U e = 0;
			if (i != j && t >= i && t < i + N) e += 1;
			if (t >= j && t < j + N) e += 256;
			U out = d(in);
			MC_CHECK(out == e, "N=%d: got %llu, expected %llu", N, out, e);
			mc::step();
			++mc::res.states;
		}
		++mc::res.traces;
		mc::outcome(mc::mix(N, mc::mix(i, j)));
	}
	mc::describe = nullptr;
}
template <int LO, int... I> void imps(std::integer_sequence<int, I...>) { (impulses<LO + I>(), ...); }

void register_scenarios()
{
	using mc::scenario;
#define ST(N) \
	scenario("states plus " #N, []() { bfs<Plus, N>(0, {1, 1000, 7}); }); \
	scenario("states xor " #N, []() { bfs<Xor, N>(0, {1, 3}); }); \
	scenario("states max " #N, []() { bfs<Max, N>(0, {0, 5, ~0ull}); }); \
	scenario("states min " #N, []() { bfs<Min, N>(~0ull, {0, 5, ~0ull}); }); \
	scenario("states product " #N, []() { bfs<Times, N>(1, {0, 3}); });
	ST(1) ST(2) ST(3) ST(4) ST(5) ST(6) ST(7)
	scenario("streams 1-16", []() { range<1>(std::make_integer_sequence<int, MC_SAN ? 9 : 16>()); });
#if !MC_SAN
	scenario("streams 17-34", []() { range<17>(std::make_integer_sequence<int, 18>()); });
	scenario("streams 63-65", []() { range<63>(std::make_integer_sequence<int, 3>()); });
	scenario("streams 99-101", []() { range<99>(std::make_integer_sequence<int, 3>()); });
	scenario("streams 127-129", []() { range<127>(std::make_integer_sequence<int, 3>()); });
	scenario("impulses 13-24", []() { imps<13>(std::make_integer_sequence<int, 12>()); });
	scenario("sums 41-100", []() { larges<41>(std::make_integer_sequence<int, 60>()); });
	scenario("sums 101-150", []() { larges<101>(std::make_integer_sequence<int, 50>()); });
#endif
	scenario("impulses 1-12", []() { imps<1>(std::make_integer_sequence<int, 12>()); });
	scenario("sums 1-40", []() { larges<1>(std::make_integer_sequence<int, 40>()); });
	scenario("long sums 1-12", []() { longs<1>(mc::pick(5000, 200000, 2000000), std::make_integer_sequence<int, 12>()); });
#define LG(N) scenario("sums " #N, []() { large<N>(); });
	LG(255) LG(256) LG(257) LG(500) LG(511) LG(513) LG(1000) LG(1023) LG(1024) LG(1025) LG(3000) LG(4097) LG(10000) LG(32769) LG(65535) LG(100000)
}
