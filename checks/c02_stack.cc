// C02: the fixed-size stack against an ideal bounded LIFO
#include "mc.hh"
#include "stack.hh"
#include "complex.hh"

using mc::str;

template <class T> T value(int i) { return T(i * 3 - 4); }
template <> DSP::Complex<float> value(int i) { return DSP::Complex<float>(i, 1 - i); }
template <> double value(int i) { return i == 1 ? -1e300 : i + 0.25; }

typedef std::vector<int> Model;

template <class T, int SIZE, class S>
void observe(S &s, const Model &m)
{
	int n = m.size();
	MC_CHECK(s.size() == n, "size %d, expected %d", s.size(), n);
	MC_CHECK(s.max_size() == SIZE, "max_size %d", s.max_size());
	MC_CHECK(s.empty() == (n == 0), "empty %d with %d elements", s.empty(), n);
	MC_CHECK(s.full() == (n == SIZE), "full %d with %d elements", s.full(), n);
	if (n) {
		MC_CHECK(s.top() == value<T>(m[n - 1]), "top with %d elements", n);
		MC_CHECK(s.first() == value<T>(m[0]), "first with %d elements", n);
	}
}

template <class T, int SIZE, class S>
void drain(const S &s, const Model &m0)
{
	S c(s);
	Model m(m0);
	while (!m.empty()) {
		MC_CHECK(c.top() == value<T>(m.back()), "top while draining, %zu left", m.size());
		MC_CHECK(c.first() == value<T>(m.front()), "first while draining, %zu left", m.size());
		c.pop();
		m.pop_back();
		++mc::progress;
	}
	MC_CHECK(c.empty() && c.size() == 0, "not empty after draining");
}

template <class T, int SIZE>
void bfs(int values, bool look)
{
	typedef DSP::Stack<T, SIZE> S;
	mc::Bfs<S, Model> b;
	b.make = [](mc::Arena<S> &a, int poison) -> S & { return a.make(poison); };
	b.key = [](const Model &m) { std::string s("|"); for (int v : m) s += char('a' + v); return s; };
	b.check = [=](S &s, const Model &m) {
		if (look) observe<T, SIZE>(s, m);
		else { S c(s); observe<T, SIZE>(c, m); }
		drain<T, SIZE>(s, m);
		if (m.empty()) {
			S c(s), d(s), e(s);
			MC_CHECK(mc::asserts([&]() { c.pop(); }), "pop on empty was not stopped");
			MC_CHECK(mc::asserts([&]() { (void)d.top(); }), "top on empty was not stopped");
			MC_CHECK(mc::asserts([&]() { (void)e.first(); }), "first on empty was not stopped");
		}
		if ((int)m.size() == SIZE) {
			S c(s);
			MC_CHECK(mc::asserts([&]() { c.push(value<T>(0)); }), "push on full was not stopped");
		}
	};
	for (int v = 0; v < values; ++v)
		b.ops.push_back({str("push(#%d)", v), [](const Model &m) { return (int)m.size() < SIZE; }, [v](S &s, Model &m) { s.push(value<T>(v)); m.push_back(v); }});
	b.ops.push_back({"pop", [](const Model &m) { return !m.empty(); }, [](S &s, Model &m) { s.pop(); m.pop_back(); }});
	b.ops.push_back({"clear", nullptr, [](S &s, Model &m) { s.clear(); m.clear(); }});
	b.max_states = mc::pick<mc::u64>(20000, 100000, 3000000);
	for (int poison : {0x00, 0x4B, 0xFF}) b.run(poison);
}

// every way to go up to level a, down to level b and up to level c with fresh values
template <class T, int SIZE>
void levels()
{
	typedef DSP::Stack<T, SIZE> S;
	static mc::Arena<S> arena;
	int a = 0, b = 0, c = 0, cl = 0;
	mc::describe = [&]() { return str("push %d, %s to %d, push to %d", a, cl ? "clear and refill" : "pop", b, c); };
	const int step = SIZE <= 16 ? 1 : max(1, SIZE / (mc::thorough() ? 32 : 8));
	auto next = [&](int x) { return x < SIZE ? min(SIZE, x + step) : SIZE + 1; };
	if (step > 1) mc::res.exhaustive = false;
	for (cl = 0; cl < 2; ++cl)
	for (a = 0; a <= SIZE; a = next(a)) for (b = 0; b <= a; b = b < a ? min(a, b + step) : a + 1) for (c = b; c <= SIZE; c = next(c)) {
		S &s = arena.make(0x4B);
		Model m;
		int v = 0;
		auto push = [&]() { s.push(value<T>(v)); m.push_back(v++); mc::step(); };
		for (int i = 0; i < a; ++i) push();
		observe<T, SIZE>(s, m);
		if (cl) { s.clear(); m.clear(); observe<T, SIZE>(s, m); while ((int)m.size() < b) push(); }
		else while ((int)m.size() > b) { s.pop(); m.pop_back(); mc::step(); }
		observe<T, SIZE>(s, m);
		while ((int)m.size() < c) push();
		observe<T, SIZE>(s, m);
		++mc::res.states;
		++mc::res.traces;
		mc::outcome(mc::mix(a, mc::mix(b, c)));
		drain<T, SIZE>(s, m);
	}
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	for (int look = 0; look < 2; ++look) {
		scenario(str("int capacity 1 look %d", look), [=]() { bfs<int, 1>(3, look); });
		scenario(str("int capacity 2 look %d", look), [=]() { bfs<int, 2>(3, look); });
		scenario(str("int capacity 3 look %d", look), [=]() { bfs<int, 3>(3, look); });
		scenario(str("int capacity 4 look %d", look), [=]() { bfs<int, 4>(3, look); });
		scenario(str("int capacity 5 look %d", look), [=]() { bfs<int, 5>(2, look); });
	}
	scenario("int capacity 6", []() { bfs<int, 6>(2, true); });
	scenario("int capacity 8", []() { bfs<int, 8>(2, true); });
	scenario("char capacity 4", []() { bfs<char, 4>(2, true); });
	scenario("double capacity 3", []() { bfs<double, 3>(3, true); });
	scenario("complex capacity 3", []() { bfs<DSP::Complex<float>, 3>(3, true); }); // exotic
#define LEV(N) scenario("levels " #N, []() { levels<int, N>(); });
	LEV(1) LEV(2) LEV(3) LEV(7) LEV(8) LEV(9) LEV(16) LEV(17) LEV(33) LEV(64) LEV(100) LEV(127) LEV(128) LEV(129) LEV(255) LEV(256) LEV(257) LEV(1000) LEV(1024) LEV(5000) LEV(32768) LEV(65537)
	scenario("levels double 12", []() { levels<double, 12>(); });
}
