// C14: frequency-domain zero padding against trigonometric interpolation
#include "fourier.hh"
#include "fdzp.hh"

using mc::str;

// the definition: coefficients by the Fourier sum, Nyquist split, evaluated at m * I / O
static VC interpolate(const VC &x, int O)
{
	const int I = x.size();
	VC X = dft(x, -1);
	const VC &w = roots(O);
	VC y(O);
	for (int m = 0; m < O; ++m) {
		C s = 0;
		for (int k = -(I / 2); k <= I / 2; ++k) {
			C a = X[(k + I) % I] / (ld)I;
			if (I % 2 == 0 && (k == I / 2 || k == -I / 2)) a /= (ld)2;
			s += a * w[(((long long)k * m) % O + O) % O];
		}
		y[m] = s;
	}
	return y;
}

template <int O, int I>
void pair()
{
	typedef DSP::FDZP<O, I, Z> F;
	trace();
	static mc::Arena<F> arena;
	std::vector<std::pair<std::string, VC>> inputs;
	for (int j = 0; j < I; ++j) for (int im = 0; im < 2; ++im) {
		VC x(I);
		x[j] = im ? C(0, 1) : C(1, 0);
		inputs.push_back({str("impulse at %d%s", j, im ? " (imaginary)" : ""), x});
	}
	for (int k : {0, 1, 2, 3, 5, 6}) inputs.push_back({str("dense %d", k), dense(I, k)});
	std::vector<VC> want;
	for (auto &i : inputs) want.push_back(interpolate(i.second, O));
	std::vector<Z> in(I);
	Buffer out(O);
	const double lg = 4 + 2 * std::log2((double)I * O);
	auto run = [&](F &f, int a, const char *name) {
		const VC &x = inputs[a].second;
		for (int i = 0; i < I; ++i) in[i] = Z(x[i].real(), x[i].imag());
		std::vector<Z> keep(in);
		out.reset();
		f(out.data(), in.data());
		out.check(name);
		MC_CHECK(!memcmp(keep.data(), in.data(), I * sizeof(Z)), "the input was modified");
		double tol = mc::eps<VT>() * lg * l2(x) * 2;
		for (int m = 0; m < O; ++m) compare(name, m, out.data()[m], want[a][m], tol);
		for (int m = 0; m < O; ++m) if ((long long)m * I % O == 0) compare("coinciding sample", m, out.data()[m], x[(long long)m * I / O], tol);
		mc::step();
		++mc::res.evals;
		mc::outcome(mc::mix(mc::mix(O, I), a));
	};
	const int n = inputs.size();
	for (int poison : {0x00, 0x4B, 0xFF}) for (int a = 0; a < n; ++a) {
		what = str("%d to %d, memory %02x, %s", I, O, poison, inputs[a].first.c_str());
		run(arena.make(poison), a, "fresh object");
		++mc::res.states;
		++mc::res.traces;
	}
	// all ordered pairs of inputs on one object (for longer inputs each one after a dense one)
	for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
		if (I > 8 && a < n - 4) continue;
		what = str("%d to %d, %s then %s", I, O, inputs[a].first.c_str(), inputs[b].first.c_str());
		F &f = arena.make(0x00);
		run(f, a, "first call");
		run(f, b, "second call");
		++mc::res.states;
		++mc::res.traces;
	}
	mc::describe = nullptr;
}

template <int O, int I> void add()
{
	if constexpr (I < O && smooth(O) && smooth(I)) mc::scenario(str("%d to %d", I, O), []() { pair<O, I>(); });
}
template <int I, int... K> void near_(std::integer_sequence<int, K...>) { (add<I + 1 + K, I>(), ...); }
template <int I> void input()
{
#ifdef FEW
	add<I + 1, I>(); add<I + 2, I>(); add<I * 3 / 2, I>(); add<I * 3 / 2 + 1, I>(); add<2 * I - 1, I>(); add<2 * I, I>(); add<2 * I + 1, I>(); add<3 * I, I>(); add<4 * I, I>(); add<8 * I, I>();
#else
	near_<I>(std::make_integer_sequence<int, (I < 24 ? 24 : 6)>());
	if constexpr (I + 24 < 3 * I) { add<3 * I - 1, I>(); add<3 * I, I>(); add<3 * I + 1, I>(); }
	if constexpr (I + 24 < 2 * I) { add<2 * I - 1, I>(); add<2 * I, I>(); add<2 * I + 1, I>(); add<3 * I / 2, I>(); }
	if constexpr (I > 8) { add<4 * I, I>(); add<5 * I, I>(); }
#endif
}
template <int LO_, int... I> void range(std::integer_sequence<int, I...>) { (input<LO_ + I>(), ...); }

void register_scenarios()
{
#ifdef LIST
	[]<int... N>(std::integer_sequence<int, N...>) { (input<N>(), ...); }(std::integer_sequence<int, LIST>());
#else
	range<LO>(std::make_integer_sequence<int, CNT>());
#endif
}
