// C04: moving extrema against the plain window
#include "mc.hh"
#include "movext.hh"

using mc::str;
typedef std::vector<int> Model; // the last N inputs (indices), oldest first, fewer at the beginning

template <class T> std::vector<T> extremes()
{
	typedef std::numeric_limits<T> L;
	std::vector<T> v = {T(1), T(0), L::lowest(), L::max(), L::is_integer ? T(L::max() - 1) : L::min(), L::is_integer ? T(L::lowest() + 1) : T(-L::min())};
	if (L::is_signed) v.push_back(T(-1));
	return v;
}
static std::string key(const Model &m) { std::string s("|"); for (int v : m) s += char('a' + v); return s; }

template <class T> T extreme(const std::vector<T> &w, bool mx) { return mx ? *std::max_element(w.begin(), w.end()) : *std::min_element(w.begin(), w.end()); }

template <class T, int N, class D, bool MX, class... A>
void bfs(const std::vector<T> &alpha, A... a)
{
	mc::Bfs<D, Model> b;
	b.make = [=](mc::Arena<D> &ar, int poison) -> D & { return ar.make(poison, a...); };
	b.key = key;
	b.check = [](D &, const Model &) {};
	for (int v = 0; v < (int)alpha.size(); ++v)
		b.ops.push_back({str("in(%.9g)", (double)alpha[v]), nullptr, [=](D &d, Model &m) {
			T out = d(alpha[v]);
			if ((int)m.size() == N) m.erase(m.begin());
			m.push_back(v);
			std::vector<T> w;
			for (int i : m) w.push_back(alpha[i]);
			T e = extreme(w, MX);
			MC_CHECK(out == e, "%s of %d: got %.17g, expected %.17g", MX ? "maximum" : "minimum", N, (double)out, (double)e);
		}});
	b.max_states = mc::pick<mc::u64>(15000, 60000, 1500000);
	for (int poison : {0x00, 0x4B}) b.run(poison);
}

template <class T, int N>
void both(int values)
{
	auto all = extremes<T>();
	// every choice of that many values from the extreme ones
	int n = all.size();
	for (int mask = 0; mask < 1 << n; ++mask) if (__builtin_popcount(mask) == values) {
		std::vector<T> alpha;
		for (int i = 0; i < n; ++i) if (mask >> i & 1) alpha.push_back(all[i]);
		bfs<T, N, DSP::MovMin<T, N>, false>(alpha);
		bfs<T, N, DSP::MovMax<T, N>, true>(alpha);
	}
	std::vector<T> small = {T(1), T(2), T(3)};
	if (values == 3) {
		bfs<T, N, DSP::MovExt<T, std::equal_to<T>, std::less<T>, N>, false>(small, std::numeric_limits<T>::max());
		bfs<T, N, DSP::MovExt<T, std::equal_to<T>, std::greater<T>, N>, true>(small, std::numeric_limits<T>::lowest());
	}
}

// runs a whole stream through fresh objects
template <class T, int N>
void run(const std::vector<T> &s)
{
	static mc::Arena<DSP::MovMin<T, N>> na;
	static mc::Arena<DSP::MovMax<T, N>> xa;
	auto &mn = na.make(0x5A);
	auto &mx = xa.make(0x5A);
	std::deque<int> qn, qx; // indices of monotone candidates
	for (int t = 0; t < (int)s.size(); ++t) {
		while (!qn.empty() && !(s[qn.back()] < s[t])) qn.pop_back();
		while (!qx.empty() && !(s[qx.back()] > s[t])) qx.pop_back();
		qn.push_back(t); qx.push_back(t);
		if (qn.front() <= t - N) qn.pop_front();
		if (qx.front() <= t - N) qx.pop_front();
		T a = mn(s[t]), b = mx(s[t]);
		MC_CHECK(a == s[qn.front()], "N=%d: minimum at step %d is %.17g instead of %.17g", N, t, (double)a, (double)s[qn.front()]);
		MC_CHECK(b == s[qx.front()], "N=%d: maximum at step %d is %.17g instead of %.17g", N, t, (double)b, (double)s[qx.front()]);
		mc::step(); mc::step();
		++mc::res.states;
	}
	++mc::res.traces;
}

template <class T>
void set_describe(const std::vector<T> &s)
{
	const std::vector<T> *p = &s;
	mc::describe = [p]() { std::string r("stream:"); for (auto v : *p) r += str(" %.9g", (double)v); return r.substr(0, 3000); };
}

// short windows over long streams
template <class T, int N>
void longrun(int len)
{
	std::vector<T> s(len);
	mc::describe = [=]() { return str("N=%d: t * 7919 %% 101 %% 23 for t from 0 to %d", N, len - 1); };
	for (int t = 0; t < len; ++t) s[t] = T(t * 7919LL % 101 % 23);
	run<T, N>(s);
	mc::outcome(mc::mix(N, len));
	mc::describe = nullptr;
}
// all permutations, and all sequences over few values, of a given length
template <class T, int N>
void permutations(int len)
{
	std::vector<T> s;
	set_describe(s);
	for (int i = 0; i < len; ++i) s.push_back(T(std::numeric_limits<T>::is_signed ? i * 2 - len : i));
	std::sort(s.begin(), s.end());
	do { run<T, N>(s); mc::outcome(mc::res.traces); } while (std::next_permutation(s.begin(), s.end()));
	mc::describe = nullptr;
}

template <class T, int N>
void patterns(int deviations)
{
	const int len = 3 * N + 2;
	std::vector<T> s(len);
	set_describe(s);
	typedef std::numeric_limits<T> L;
	std::vector<std::function<T(int)>> base = {
		[](int) { return T(5); },
		[](int i) { return T(i); },
		[=](int i) { return T(len - i); },
		[](int i) { return T(i & 1 ? 9 : 3); },
		[](int i) { return T(i % N); },
		[](int i) { return T(N - 1 - i % N); },
		[](int i) { return T(i % (N + 1)); },
		[](int i) { return T(std::abs(i % (2 * N) - N)); },
		[](int i) { return T(i * 7919LL % 101); },
		[](int i) { return T((i * 31LL * i + i * 17) % 61 % 7); },
		[](int i) { return i / N & 1 ? L::max() : L::lowest(); },
		[](int i) { return i % 3 ? L::max() : T(1); },
		[](int i) { return i % 3 ? L::lowest() : T(1); },
		[](int i) { return T(i / N); },
		[](int i) { return T(len / N + 1 - i / N); },
	};
	std::vector<T> dev = {L::lowest(), L::max(), T(0), T(4)};
	for (auto &f : base) {
		for (int i = 0; i < len; ++i) s[i] = f(i);
		run<T, N>(s);
		if (deviations >= 1)
			for (int i = 0; i < len; ++i) for (T d : dev) {
				T keep = s[i]; s[i] = d;
				run<T, N>(s);
				if (deviations >= 2)
					for (int j = i + 1; j < len; ++j) for (T e : dev) {
						T keep2 = s[j]; s[j] = e;
						run<T, N>(s);
						s[j] = keep2;
					}
				s[i] = keep;
			}
		mc::outcome(mc::mix(N, mc::res.traces));
	}
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
#define TYPES(T) \
	scenario("states " #T " 1", []() { both<T, 1>(3); }); \
	scenario("states " #T " 2", []() { both<T, 2>(3); }); \
	scenario("states " #T " 3", []() { both<T, 3>(3); }); \
	scenario("states " #T " 4", []() { both<T, 4>(2); }); \
	scenario("states " #T " 5", []() { both<T, 5>(2); }); \
	scenario("permutations " #T, []() { int n = mc::pick(6, 7, 8); permutations<T, 1>(n); permutations<T, 2>(n); permutations<T, 3>(n); permutations<T, 4>(n); permutations<T, 5>(n); }); \
	scenario("patterns " #T " small", []() { patterns<T, 1>(2); patterns<T, 2>(2); patterns<T, 3>(2); patterns<T, 4>(2); patterns<T, 5>(2); patterns<T, 6>(MC_SAN ? 1 : 2); patterns<T, 7>(MC_SAN ? 1 : 2); patterns<T, 8>(MC_SAN ? 1 : 2); }); \
	scenario("patterns " #T " large", []() { patterns<T, 9>(1); patterns<T, 10>(1); patterns<T, 15>(1); patterns<T, 16>(1); patterns<T, 17>(1); patterns<T, 31>(1); patterns<T, 33>(1); });
#if PART == 0
	TYPES(int)
#if !MC_SAN
	TYPES(unsigned)
#endif
#elif PART == 1
	TYPES(float)
#if !MC_SAN
	TYPES(short)
#endif
#else
#if !MC_SAN
	TYPES(double)
#endif
	scenario("states signed char 3", []() { both<signed char, 3>(3); });
	scenario("states long long 3", []() { both<long long, 3>(3); });
	scenario("states unsigned char 3", []() { both<unsigned char, 3>(3); }); // exotic
	scenario("all sequences int 4", []() { std::vector<int> s(9); set_describe(s); mc::product(std::vector<int>(mc::pick(7, 9, 11), 3), [&](const std::vector<int> &v) { s = v; run<int, 4>(s); run<int, 3>(s); mc::outcome(mc::res.traces); }); });
	scenario("all sequences float 5", []() { std::vector<float> s(9); set_describe(s); mc::product(std::vector<int>(mc::pick(7, 9, 11), 3), [&](const std::vector<int> &v) { s.assign(v.size(), 0); for (size_t i = 0; i < v.size(); ++i) s[i] = v[i] - 1.5f; run<float, 5>(s); mc::outcome(mc::res.traces); }); });
	scenario("patterns int 64", []() { patterns<int, 64>(1); });
	scenario("patterns int 100", []() { patterns<int, 100>(1); });
	scenario("patterns int 127", []() { patterns<int, 127>(mc::thorough()); patterns<int, 128>(mc::thorough()); patterns<int, 129>(mc::thorough()); });
	scenario("patterns int 1000", []() { patterns<int, 1000>(0); patterns<int, 4096>(0); patterns<int, 40000>(0); });
	scenario("long runs", []() { int n = mc::pick(5000, 200000, 2000000); longrun<int, 1>(n); longrun<int, 2>(n); longrun<float, 3>(n); longrun<int, 4>(n); longrun<int, 5>(n); longrun<double, 7>(n); longrun<int, 8>(n); longrun<short, 10>(n); });
	scenario("patterns double 257", []() { patterns<double, 257>(0); });
#endif
}
