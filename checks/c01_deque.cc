// C01: the fixed-size deque against an ideal double-ended queue
#include "mc.hh"
#include "deque.hh"
#include "complex.hh"

using mc::str;

template <class T> struct Val;
template <> struct Val<int> { static int at(int i) { static const int v[] = {0, 1, -7, INT_MAX, INT_MIN}; return i < 5 ? v[i] : 1000 + i; } };
template <> struct Val<char> { static char at(int i) { static const char v[] = {0, 1, -128, 127, -1}; return i < 5 ? v[i] : char(i); } };
template <> struct Val<double> { static double at(int i) { static const double v[] = {0, 0.5, -1e300, 1e-300, 3}; return i < 5 ? v[i] : 0.25 + i; } };
template <> struct Val<DSP::Complex<float>> { static DSP::Complex<float> at(int i) { return DSP::Complex<float>(i, -2 * i); } };

typedef std::vector<int> Model; // indices of values, back first

template <class T, int SIZE, class D>
void observe(D &d, const Model &m, bool peek)
{
	int n = m.size();
	MC_CHECK(d.size() == n, "size %d, expected %d", d.size(), n);
	MC_CHECK(d.max_size() == SIZE, "max_size %d", d.max_size());
	MC_CHECK(d.empty() == (n == 0), "empty %d with %d elements", d.empty(), n);
	MC_CHECK(d.full() == (n == SIZE), "full %d with %d elements", d.full(), n);
	if (n && peek) {
		MC_CHECK(d.front() == Val<T>::at(m[n - 1]), "front differs with %d elements", n);
		MC_CHECK(d.back() == Val<T>::at(m[0]), "back differs with %d elements", n);
	}
}

// the whole content, taken out of a copy at alternating ends
template <class T, int SIZE, class D>
void drain(const D &d, const Model &m0, unsigned ends)
{
	D c(d);
	Model m(m0);
	while (!m.empty()) {
		if (ends & 1) { MC_CHECK(c.front() == Val<T>::at(m.back()), "front while draining, %zu left", m.size()); c.pop_front(); m.pop_back(); }
		else { MC_CHECK(c.back() == Val<T>::at(m.front()), "back while draining, %zu left", m.size()); c.pop_back(); m.erase(m.begin()); }
		ends = (ends >> 1) | ((ends & 1) << 31);
		++mc::progress;
	}
	MC_CHECK(c.empty() && c.size() == 0, "not empty after draining");
}

template <class T, int SIZE>
void bfs(int values, bool peek)
{
	typedef DSP::Deque<T, SIZE> D;
	mc::Bfs<D, Model> b;
	b.make = [](mc::Arena<D> &a, int poison) -> D & { return a.make(poison); };
	b.key = [](const Model &m) { std::string s; for (int v : m) s += char('a' + v); return "|" + s; };
	b.check = [=](D &d, const Model &m) {
		observe<T, SIZE>(d, m, peek);
		drain<T, SIZE>(d, m, 0);
		drain<T, SIZE>(d, m, ~0u);
		drain<T, SIZE>(d, m, 0x55555555);
		if (m.empty()) {
			D c(d), e(d), f(d), g(d);
			MC_CHECK(mc::asserts([&]() { c.pop_back(); }), "pop_back on empty was not stopped");
			MC_CHECK(mc::asserts([&]() { e.pop_front(); }), "pop_front on empty was not stopped");
			MC_CHECK(mc::asserts([&]() { (void)f.front(); }), "front on empty was not stopped");
			MC_CHECK(mc::asserts([&]() { (void)g.back(); }), "back on empty was not stopped");
		}
		if ((int)m.size() == SIZE) {
			D c(d), e(d);
			MC_CHECK(mc::asserts([&]() { c.push_back(T()); }), "push_back on full was not stopped");
			MC_CHECK(mc::asserts([&]() { e.push_front(T()); }), "push_front on full was not stopped");
		}
	};
	auto room = [](const Model &m) { return (int)m.size() < SIZE; };
	auto some = [](const Model &m) { return !m.empty(); };
	for (int v = 0; v < values; ++v) {
		b.ops.push_back({str("push_back(#%d)", v), room, [v](D &d, Model &m) { d.push_back(Val<T>::at(v)); m.insert(m.begin(), v); }});
		b.ops.push_back({str("push_front(#%d)", v), room, [v](D &d, Model &m) { d.push_front(Val<T>::at(v)); m.push_back(v); }});
	}
	b.ops.push_back({"pop_back", some, [](D &d, Model &m) { d.pop_back(); m.erase(m.begin()); }});
	b.ops.push_back({"pop_front", some, [](D &d, Model &m) { d.pop_front(); m.pop_back(); }});
	b.ops.push_back({"clear", nullptr, [](D &d, Model &m) { d.clear(); m.clear(); }});
	b.max_states = mc::pick<mc::u64>(20000, 150000, 3000000);
	for (int poison : {0x00, 0x4B}) b.run(poison);
}

// larger capacities: every rotation of the ring, every fill level, fills split between both ends,
// then every single operation and a full drain
template <class T, int SIZE>
void rotations()
{
	typedef DSP::Deque<T, SIZE> D;
	static mc::Arena<D> arena;
	int r = 0, c = 0, f = 0, dir = 0, op = -1;
	mc::describe = [&]() { return str("rotate %d (direction %d), fill %d with %d at the front, op %d", r, dir, c, f, op); };
	const int rstep = SIZE <= 40 || mc::thorough() ? 1 : SIZE / 16;
	const int cstep = SIZE <= 40 || mc::thorough() ? 1 : SIZE / 12;
	if (rstep > 1 || cstep > 1) mc::res.exhaustive = false;
	for (dir = 0; dir < 4; ++dir)
	for (r = 0; r <= SIZE; r += r + rstep > SIZE && r < SIZE ? SIZE - r : rstep)
	for (c = 0; c <= SIZE; c += c + cstep > SIZE && c < SIZE ? SIZE - c : cstep) {
		int fstep = max(1, c / (SIZE <= 20 ? 20 : 5));
		for (f = 0; f <= c; f += fstep) {
			op = -1;
			D &d = arena.make(0x5A);
			Model m;
			for (int i = 0; i < r; ++i) {
				if (dir == 0) { d.push_back(Val<T>::at(1)); d.pop_front(); }
				else if (dir == 1) { d.push_front(Val<T>::at(1)); d.pop_back(); }
				else if (dir == 2) { d.push_back(Val<T>::at(1)); }
				else d.push_front(Val<T>::at(1));
				mc::step();
			}
			if (dir >= 2) { d.clear(); MC_CHECK(d.empty(), "not empty after clear"); }
			for (int i = 0; i < c; ++i) {
				int v = 5 + i;
				if (i < f) { d.push_front(Val<T>::at(v)); m.push_back(v); }
				else { d.push_back(Val<T>::at(v)); m.insert(m.begin(), v); }
				mc::step();
				observe<T, SIZE>(d, m, true);
			}
			++mc::res.states;
			drain<T, SIZE>(d, m, 0);
			drain<T, SIZE>(d, m, 0xF0F0F0F0);
			for (op = 0; op < 5; ++op) {
				D e(d);
				Model n(m);
				switch (op) {
				case 0: if (n.empty()) continue; e.pop_back(); n.erase(n.begin()); break;
				case 1: if (n.empty()) continue; e.pop_front(); n.pop_back(); break;
				case 2: if ((int)n.size() == SIZE) continue; e.push_back(Val<T>::at(3)); n.insert(n.begin(), 3); break;
				case 3: if ((int)n.size() == SIZE) continue; e.push_front(Val<T>::at(3)); n.push_back(3); break;
				case 4: e.clear(); n.clear(); e.push_back(Val<T>::at(2)); n.push_back(2); break;
				}
				mc::step();
				observe<T, SIZE>(e, n, true);
				drain<T, SIZE>(e, n, ~0u);
				++mc::res.traces;
			}
		}
	}
	if (mc::want_sample()) mc::sample(str("capacity %d: rotate, fill, one operation, drain", SIZE));
	mc::describe = nullptr;
}

// long streams: distinct values run through the ring many times at constant fill levels
template <int SIZE>
void streams()
{
	typedef DSP::Deque<int, SIZE> D;
	static mc::Arena<D> arena;
	int fill = 0, mode = 0, i = 0;
	mc::describe = [&]() { return str("stream at fill %d mode %d step %d", fill, mode, i); };
	std::set<int> fills = {1, 2, SIZE / 2, SIZE - 1, SIZE};
	for (int fl : fills) if (fl >= 1 && fl <= SIZE) for (mode = 0; mode < 4; ++mode) {
		fill = fl;
		D &d = arena.make(0xFF);
		std::deque<int> m;
		for (i = 0; i < 3 * SIZE + 5; ++i) {
			if ((int)m.size() == fill) {
				if (mode & 1) { MC_CHECK(d.front() == m.back(), "front"); d.pop_front(); m.pop_back(); }
				else { MC_CHECK(d.back() == m.front(), "back"); d.pop_back(); m.pop_front(); }
			}
			if (mode & 2) { d.push_front(i); m.push_back(i); }
			else { d.push_back(i); m.push_front(i); }
			mc::step(); ++mc::res.states;
			MC_CHECK(d.size() == (int)m.size() && d.front() == m.back() && d.back() == m.front(), "ends differ at fill %d", fill);
			MC_CHECK(d.full() == (fill == SIZE && (int)m.size() == SIZE), "full");
			mc::outcome(mc::mix(d.front(), d.back()));
		}
		++mc::res.traces;
	}
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	for (bool peek : {true, false}) {
		const char *s = peek ? "" : " without peeking";
		scenario(str("int capacity 1%s", s), [=]() { bfs<int, 1>(3, peek); });
		scenario(str("int capacity 2%s", s), [=]() { bfs<int, 2>(3, peek); });
		scenario(str("int capacity 3%s", s), [=]() { bfs<int, 3>(2, peek); });
		scenario(str("int capacity 4%s", s), [=]() { bfs<int, 4>(2, peek); });
		if (peek) scenario("int capacity 5", [=]() { bfs<int, 5>(mc::thorough() ? 2 : 1, peek); });
		if (peek) scenario("int capacity 6", [=]() { bfs<int, 6>(mc::thorough() ? 2 : 1, peek); });
		if (peek) scenario("int capacity 8", [=]() { bfs<int, 8>(1, peek); });
	}
	scenario("char capacity 3", []() { bfs<char, 3>(2, true); });
	scenario("double capacity 3", []() { bfs<double, 3>(2, true); });
	scenario("complex capacity 2", []() { bfs<DSP::Complex<float>, 2>(3, true); }); // exotic
	scenario("complex capacity 3", []() { bfs<DSP::Complex<float>, 3>(2, true); }); // exotic
#define ROT(N) scenario("rotations int " #N, []() { rotations<int, N>(); });
	ROT(1) ROT(2) ROT(3) ROT(4) ROT(5) ROT(6) ROT(7) ROT(8) ROT(9) ROT(10) ROT(11) ROT(12) ROT(13) ROT(14) ROT(15) ROT(16)
	ROT(17) ROT(20) ROT(24) ROT(31) ROT(32) ROT(33) ROT(42) ROT(63) ROT(64) ROT(65) ROT(100) ROT(123) ROT(128) ROT(256)
	scenario("rotations double 12", []() { rotations<double, 12>(); });
	scenario("rotations complex 10", []() { rotations<DSP::Complex<float>, 10>(); }); // exotic
#define STR(N) scenario("streams " #N, []() { streams<N>(); });
	STR(1) STR(2) STR(3) STR(7) STR(16) STR(100) STR(127) STR(128) STR(129) STR(255) STR(256) STR(257) STR(1000) STR(1023) STR(1024) STR(4567) STR(32767) STR(32769) STR(65536) STR(100000)
}
