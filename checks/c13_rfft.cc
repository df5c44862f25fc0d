// C13: the real-input transform against the discrete Fourier sum
#include "fourier.hh"

using mc::str;

template <int N>
void size()
{
	typedef DSP::RealToHalfComplexTransform<N, Z> F;
	trace();
	static mc::Arena<F> arena;
	F &f = arena.make(0x4B);
	std::vector<VT> in(N);
	Buffer out(N / 2 + 1), out2(N / 2 + 1);
	const VC &w = roots(N);
	const double lg = std::log2((double)N);
	auto run = [&](const char *name) {
		std::vector<VT> keep(in);
		out.reset();
		f(out.data(), in.data());
		out.check(name);
		MC_CHECK(!memcmp(keep.data(), in.data(), N * sizeof(VT)), "%s: the input was modified", name);
		mc::step();
		++mc::res.evals;
	};
	auto verify = [&](const char *name, int k, C e, double tol) {
		if (k == 0 || k == N / 2) {
			compare(name, k, out.data()[k], C(e.real() / 2, 0), tol);
			MC_CHECK(out.data()[k].imag() == 0, "%s: imaginary part of output %d", name, k);
		} else compare(name, k, out.data()[k], e, tol);
	};
	const int stride = N <= 1100 ? 1 : N / 64;
	if (stride > 1) mc::res.exhaustive = false;
	for (int s = -1; s < 2; s += 2) for (int j = 0; j < N; j += j && j + stride > N - 1 && j < N - 1 ? N - 1 - j : stride) {
		what = str("N=%d impulse %d at %d", N, s, j);
		std::fill(in.begin(), in.end(), VT(0));
		in[j] = s;
		run("impulse");
		for (int k = 0; k <= N / 2; ++k) verify("impulse", k, std::conj(w[(long long)j * k % N]) * (ld)s, mc::eps<VT>() * (6 + 2 * lg));
		mc::outcome(mc::mix(N, 2 * j + (s > 0)));
	}
	for (int kind = 0; kind < 7; ++kind) {
		VC x = dense(N, kind);
		what = str("N=%d dense vector %d", N, kind);
		for (int i = 0; i < N; ++i) { x[i] = C(x[i].real(), 0); in[i] = x[i].real(); }
		run("dense");
		if (N <= 5000) {
			VC y = dft(x, -1);
			double tol = mc::eps<VT>() * (6 + 2 * lg) * l2(x) * 2;
			for (int k = 0; k <= N / 2; ++k) verify("dense", k, y[k], tol);
		}
		out2.reset();
		f(out2.data(), in.data());
		out2.check("repeated");
		double rtol = mc::eps<VT>() * (6 + 2 * lg) * l2(x) * 2;
		for (int k = 0; k <= N / 2; ++k) compare("repeated use", k, out2.data()[k], c(out.data()[k]), rtol);
		mc::step();
	}
	mc::note(str("%s: largest deviation over tolerance %.3f", mc::cur_name.c_str(), worst));
	mc::describe = nullptr;
}

template <int N> void add()
{
	if constexpr (N % 2 == 0 && smooth(N / 2)) mc::scenario(str("size %d", N), []() { size<N>(); });
}
template <int LO_, int... I> void range(std::integer_sequence<int, I...>) { (add<2 * (LO_ + I)>(), ...); }

void register_scenarios()
{
#ifdef LIST
	[]<int... N>(std::integer_sequence<int, N...>) { (add<2 * N>(), ...); }(std::integer_sequence<int, LIST>());
#else
	range<LO>(std::make_integer_sequence<int, CNT>());
#endif
}
