// C03: delay line and bip buffer against the plain input history
#include "mc.hh"
#include "delay.hh"
#include "bip_buffer.hh"
#include "complex.hh"

using mc::str;
typedef std::vector<int> Model;

template <class T> struct V { static T at(int i) { static const T v[] = {T(0), T(1), T(-5), T(77)}; return i < 4 ? v[i] : T(i + 0.25); } };
template <> struct V<int> { static int at(int i) { static const int v[] = {0, INT_MIN, INT_MAX, 5}; return i < 4 ? v[i] : i; } };
template <> struct V<DSP::Complex<float>> { static DSP::Complex<float> at(int i) { return DSP::Complex<float>(i, -i); } };

static std::string hist_key(const Model &m) { std::string s("|"); for (int v : m) s += char('a' + v); return s; }

template <class T, int N>
void delay_bfs(int values, int init)
{
	typedef DSP::Delay<T, N> D;
	mc::Bfs<D, Model> b;
	b.init = Model(N, init); // oldest first
	b.make = [=](mc::Arena<D> &a, int poison) -> D & { return init ? a.make(poison, V<T>::at(init)) : a.make(poison); };
	b.key = hist_key;
	b.check = [](D &d, const Model &m) {
		D c(d);
		for (int i = 0; i < N; ++i) MC_CHECK(c(V<T>::at(1)) == V<T>::at(m[i]), "flushing a copy, position %d", i);
	};
	for (int v = 0; v < values; ++v)
		b.ops.push_back({str("in(#%d)", v), nullptr, [=](D &d, Model &m) {
			T out = d(V<T>::at(v));
			MC_CHECK(out == V<T>::at(m[0]), "output is not the input given %d calls earlier", N);
			m.erase(m.begin());
			m.push_back(v);
		}});
	b.max_states = mc::pick<mc::u64>(20000, 100000, 2000000);
	for (int poison : {0x00, 0x4B}) b.run(poison);
}

template <class T, int N>
void bip_bfs(int values, bool ask)
{
	typedef DSP::BipBuffer<T, N> B;
	mc::Bfs<B, Model> b;
	b.init = Model(N, 0);
	b.make = [](mc::Arena<B> &a, int poison) -> B & { return a.make(poison); };
	b.key = hist_key;
	auto compare = [](const T *p, const Model &m, const char *what) {
		for (int i = 0; i < N; ++i) MC_CHECK(p[i] == V<T>::at(m[i]), "%s: element %d of %d", what, i, N);
	};
	b.check = [=](B &d, const Model &m) {
		B c(d);
		compare(c(), m, "copy without input");
		compare(c(), m, "copy without input, second time");
		const T *p = c(V<T>::at(1));
		Model n(m); n.erase(n.begin()); n.push_back(1);
		compare(p, n, "copy after input");
	};
	for (int v = 0; v < values; ++v)
		b.ops.push_back({str("in(#%d)", v), nullptr, [=](B &d, Model &m) {
			const T *p = d(V<T>::at(v));
			m.erase(m.begin());
			m.push_back(v);
			compare(p, m, "after input");
			if (ask) { const T *q = d(); compare(q, m, "asking again"); MC_CHECK(p == q, "asking again returned another pointer"); }
		}});
	b.ops.push_back({"ask", nullptr, [=](B &d, Model &m) { compare(d(), m, "asking"); }});
	b.max_states = mc::pick<mc::u64>(20000, 100000, 2000000);
	for (int poison : {0x00, 0x4B}) b.run(poison);
}

// distinct values through every phase of the ring, several rounds
template <class T, int N>
void stream(int len = N < 5000 ? 5 * N + 3 : 2 * N + 3)
{
	int t = 0, init = 0, poison = 0;
	mc::describe = [&]() { return str("N=%d init #%d poison=%02x step %d of a stream of distinct values", N, init, poison, t); };
	auto in = [](int i) { return T(i + 1); };
	static mc::Arena<DSP::Delay<T, N>> da;
	static mc::Arena<DSP::BipBuffer<T, N>> ba;
	for (poison = 0; poison < 256; poison += 0x4B) for (init = 0; init < 2; ++init) {
		auto &d = init ? da.make(poison, T(-3)) : da.make(poison);
		auto &b = ba.make(poison);
		for (t = 0; t < len; ++t) {
			T o = d(in(t));
			T e = t < N ? (init ? T(-3) : T(0)) : in(t - N);
			MC_CHECK(o == e, "delay output at step %d", t);
			const T *p = b(in(t));
			int lo = 0;
			if (N > 64 && t % max(1, N / 16) && t % N && t % N != N - 1) lo = N - 3; // long windows: whole content at every 16th phase
			auto cmp = [&](const T *p, const char *w) {
				for (int i = lo; i < N; ++i) {
					int k = t - (N - 1) + i;
					MC_CHECK(p[i] == (k < 0 ? T(0) : in(k)), "bip buffer %s: element %d at step %d", w, i, t);
				}
				MC_CHECK(p[0] == (t - (N - 1) < 0 ? T(0) : in(t - (N - 1))), "bip buffer %s: oldest element at step %d", w, t);
			};
			cmp(p, "after input");
			if (t & 1) cmp(b(), "asked again");
			mc::step(); mc::step();
			++mc::res.states;
			if (t < 64) mc::outcome(mc::mix(N, t));
		}
		++mc::res.traces;
	}
	mc::describe = nullptr;
}

template <int LO, int... I>
void longs(int len, std::integer_sequence<int, I...>) { (stream<int, LO + I>(len), ...); }
template <class T, int LO, int... I>
void streams(std::integer_sequence<int, I...>) { (stream<T, LO + I>(), ...); }

void register_scenarios()
{
	using mc::scenario;
	for (int init : {0, 1, 3}) {
		scenario(str("delay int 1 init %d", init), [=]() { delay_bfs<int, 1>(3, init); });
		scenario(str("delay int 2 init %d", init), [=]() { delay_bfs<int, 2>(3, init); });
		scenario(str("delay int 3 init %d", init), [=]() { delay_bfs<int, 3>(3, init); });
		scenario(str("delay int 4 init %d", init), [=]() { delay_bfs<int, 4>(3, init); });
		scenario(str("delay int 5 init %d", init), [=]() { delay_bfs<int, 5>(2, init); });
		scenario(str("delay int 8 init %d", init), [=]() { delay_bfs<int, 8>(2, init); });
	}
	scenario("delay short 3", []() { delay_bfs<short, 3>(3, 2); }); // exotic
	scenario("delay double 3", []() { delay_bfs<double, 3>(3, 2); });
	scenario("delay complex 3", []() { delay_bfs<DSP::Complex<float>, 3>(3, 2); }); // exotic
	for (int ask = 0; ask < 2; ++ask) {
		scenario(str("bip int 1 ask %d", ask), [=]() { bip_bfs<int, 1>(3, ask); });
		scenario(str("bip int 2 ask %d", ask), [=]() { bip_bfs<int, 2>(3, ask); });
		scenario(str("bip int 3 ask %d", ask), [=]() { bip_bfs<int, 3>(3, ask); });
		scenario(str("bip int 4 ask %d", ask), [=]() { bip_bfs<int, 4>(2, ask); });
		scenario(str("bip int 5 ask %d", ask), [=]() { bip_bfs<int, 5>(2, ask); });
	}
	scenario("bip double 3", []() { bip_bfs<double, 3>(3, true); });
	scenario("bip complex 3", []() { bip_bfs<DSP::Complex<float>, 3>(3, true); }); // exotic
	scenario("streams int 1-24", []() { streams<int, 1>(std::make_integer_sequence<int, 24>()); });
	scenario("streams int 25-48", []() { streams<int, 25>(std::make_integer_sequence<int, 24>()); });
	scenario("streams int 49-72", []() { streams<int, 49>(std::make_integer_sequence<int, 24>()); });
	scenario("streams float 1-16", []() { streams<float, 1>(std::make_integer_sequence<int, 16>()); });
#define BIG(N) scenario("stream int " #N, []() { stream<int, N>(); });
	BIG(100) BIG(127) BIG(128) BIG(129) BIG(200) BIG(255) BIG(256) BIG(257) BIG(500) BIG(1000) BIG(1023) BIG(1024) BIG(1025) BIG(4096) BIG(10000) BIG(40000) BIG(70000)
	scenario("long streams int 1-8", []() { longs<1>(mc::pick(5000, 150000, 1000000), std::make_integer_sequence<int, 8>()); });
	scenario("stream double 333", []() { stream<double, 333>(); });
}
