// C12: the FFT against the discrete Fourier sum
#include "fourier.hh"

using mc::str;

template <int N, int SIGN>
void size()
{
	typedef DSP::FastFourierTransform<N, Z, SIGN> F;
	trace();
	static mc::Arena<F> arena;
	F &f = arena.make(0x4B);
	std::vector<Z> in(N);
	Buffer out(N), out2(N);
	const VC &w = roots(N);
	const double lg = std::log2((double)N);
	auto run = [&](const char *name) {
		std::vector<Z> keep(in);
		out.reset(); out2.reset();
		f(out.data(), in.data());
		out.check(name);
		MC_CHECK(!memcmp(keep.data(), in.data(), N * sizeof(Z)), "%s: the input was modified", name);
		mc::step();
		++mc::res.evals;
	};
	// all real and imaginary unit impulses: the columns of the transform
	const int stride = N <= 1100 ? 1 : mc::thorough() ? max(1, N / 2048) : N / 64;
	if (stride > 1) mc::res.exhaustive = false;
	for (int im = 0; im < 2; ++im) for (int j = 0; j < N; j += j && j + stride > N - 1 && j < N - 1 ? N - 1 - j : stride) {
		what = str("N=%d sign=%d impulse at %d%s", N, SIGN, j, im ? " (imaginary)" : "");
		std::fill(in.begin(), in.end(), Z(0, 0));
		in[j] = im ? Z(0, 1) : Z(1, 0);
		run("impulse");
		for (int k = 0; k < N; ++k) {
			C e = w[(long long)j * k % N];
			if (SIGN < 0) e = std::conj(e);
			if (im) e *= C(0, 1);
			compare("impulse", k, out.data()[k], e, mc::eps<VT>() * (4 + 2 * lg));
		}
		mc::outcome(mc::mix(mc::mix(N, SIGN), 2 * j + im));
	}
	// dense vectors, repeated and by a copy of the object
	for (int kind = 0; kind < (N <= 1100 ? 7 : 1); ++kind) {
		VC x = dense(N, kind);
		what = str("N=%d sign=%d dense vector %d", N, SIGN, kind);
		for (int i = 0; i < N; ++i) in[i] = Z(x[i].real(), x[i].imag());
		run("dense");
		if (N <= 5000) {
			VC y = dft(x, SIGN);
			double tol = mc::eps<VT>() * (4 + 2 * lg) * l2(x) * 2;
			for (int k = 0; k < N; ++k) compare("dense", k, out.data()[k], y[k], tol);
		}
		f(out2.data(), in.data());
		out2.check("repeated");
		double rtol = mc::eps<VT>() * (4 + 2 * lg) * l2(x) * 2;
		for (int k = 0; k < N; ++k) compare("repeated use", k, out2.data()[k], c(out.data()[k]), rtol);
		// backward of forward is N times the input
		static DSP::FastFourierTransform<N, Z, -SIGN> g;
		g(out2.data(), out.data());
		out2.check("round trip");
		double tol = mc::eps<VT>() * (8 + 4 * lg) * l2(x) * std::sqrt((double)N) * 2;
		for (int i = 0; i < N; ++i) compare("round trip", i, out2.data()[i], x[i] * (ld)N, tol);
		mc::step(); mc::step();
	}
	mc::describe = nullptr;
}

template <int N> void add()
{
	if constexpr (smooth(N)) {
		mc::scenario(str("forward %d", N), []() { size<N, -1>(); mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst)); });
		mc::scenario(str("backward %d", N), []() { size<N, 1>(); });
	}
}
template <int LO_, int... I> void range(std::integer_sequence<int, I...>) { (add<LO_ + I>(), ...); }

void register_scenarios()
{
#ifdef LIST
	[]<int... N>(std::integer_sequence<int, N...>) { (add<N>(), ...); }(std::integer_sequence<int, LIST>());
#else
	range<LO>(std::make_integer_sequence<int, CNT>());
#endif
}
