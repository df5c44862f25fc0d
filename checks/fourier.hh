// Reference discrete Fourier sums in long double
#pragma once
#include "mc.hh"
#include "complex.hh"
#include "fft.hh"
#ifndef VT
#define VT double
#endif

typedef mc::ld ld;
typedef std::complex<ld> C;
typedef std::vector<C> VC;
typedef DSP::Complex<VT> Z;

constexpr bool smooth(int n) { for (int p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31}) while (n % p == 0) n /= p; return n == 1; }

inline const VC &roots(int n)
{
	static std::map<int, VC> cache;
	VC &r = cache[n];
	if (r.empty()) {
		r.resize(n);
		for (int k = 0; k < n; ++k) {
			// exact octant reduction keeps the symmetric values symmetric
			ld a = 2 * acosl(-1) * k / n;
			r[k] = C(cosl(a), sinl(a));
			if (4 * k == n) r[k] = C(0, 1);
			if (2 * k == n) r[k] = C(-1, 0);
			if (4 * k == 3 * n) r[k] = C(0, -1);
		}
	}
	return r;
}
inline VC dft(const VC &x, int sign)
{
	const int n = x.size();
	const VC &w = roots(n);
	VC y(n);
	for (int k = 0; k < n; ++k)
		for (int j = 0; j < n; ++j) {
			C f = w[(long long)j * k % n];
			y[k] += x[j] * (sign < 0 ? std::conj(f) : f);
		}
	return y;
}
inline double mag(C v) { return (double)max(std::abs(v.real()), std::abs(v.imag())); }
// dense vectors with values that are exact in float
inline VC dense(int n, int kind)
{
	if (kind > 4) {
		// the same, very quiet and very loud
		VC x = dense(n, 0);
		for (C &v : x) v *= std::ldexp((ld)1, (kind == 5 ? -80 : 80) * (sizeof(VT) == 4 ? 1 : 5));
		return x;
	}
	VC x(n);
	for (int i = 0; i < n; ++i) {
		unsigned h = i * 2654435761u + kind * 40503u;
		h ^= h >> 13; h *= 0x5bd1e995; h ^= h >> 15;
		switch (kind) {
		case 0: x[i] = C((int)(h % 2001) - 1000, (int)(h / 2048 % 2001) - 1000) / (ld)1024; break;
		case 1: x[i] = C(i + 1, n - 2 * i); break;
		case 2: x[i] = C(i & 1 ? -1 : 1, i % 3 - 1); break;
		case 3: x[i] = C(1, -1); break;
		default: x[i] = C((int)(h % 7) - 3, (int)(h / 64 % 5) - 2); break;
		}
	}
	return x;
}
inline double l2(const VC &x) { ld s = 0; for (auto &v : x) s += std::norm(v); return (double)sqrtl(s); }

// memory with guards on both sides; sanitized builds rely on red zones as well
struct Buffer
{
	std::vector<Z> v;
	int n;
	static const int G = 3;
	Buffer(int n) : v(n + 2 * G, Z(VT(12345.5), VT(-777))), n(n) {}
	Z *data() { return v.data() + G; }
	void reset() { std::fill(v.begin(), v.end(), Z(VT(12345.5), VT(-777))); }
	void check(const char *what)
	{
		for (int i = 0; i < G; ++i)
			MC_CHECK(v[i] == Z(VT(12345.5), VT(-777)) && v[n + G + i] == Z(VT(12345.5), VT(-777)), "%s: memory outside of the output was changed", what);
	}
};
inline C c(Z z) { return C(z.real(), z.imag()); }
inline double worst;
inline std::string what;
inline void compare(const char *name, int k, Z got, C want, double tol)
{
	C g = c(got);
	double d = mag(g - want);
	if (tol > 0) worst = max(worst, d / tol);
	MC_CHECK(mc::finite_bits((double)g.real()) && mc::finite_bits((double)g.imag()) && d <= tol,
		"%s: output %d is (%.9g,%.9g) instead of (%.9g,%.9g), tolerance %.3g", name, k, (double)g.real(), (double)g.imag(), (double)want.real(), (double)want.imag(), tol);
}
inline void trace() { mc::describe = []() { return what; }; }
