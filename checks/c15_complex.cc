// C15: complex arithmetic against the definition
#include "mc.hh"
#include "complex.hh"

using mc::str;
typedef mc::ld ld;

static double A, B, C, D;
static double worst;
static void trace() { mc::describe = []() { return str("a=(%.9g,%.9g) b=(%.9g,%.9g)", A, B, C, D); }; }
static void expect(const char *name, ld got, ld want, ld tol)
{
	ld d = got - want;
	if (d < 0) d = -d;
	if (tol > 0) worst = max(worst, (double)(d / tol));
	MC_CHECK(mc::finite_bits((double)got) && d <= tol, "%s is %.17g instead of %.17g, tolerance %.3g", name, (double)got, (double)want, (double)tol);
}

template <class T>
struct Ops
{
	typedef DSP::Complex<T> Z;
	static constexpr bool exact = std::is_integral<T>::value;
	static void check(const char *name, Z z, ld re, ld im, ld tre, ld tim)
	{
		expect(str("real part of %s", name).c_str(), z.real(), re, tre);
		expect(str("imaginary part of %s", name).c_str(), z.imag(), im, tim);
		mc::step();
		mc::outcome(mc::mix(mc::bits(z.real()), mc::bits(z.imag())));
	}
	static void pair(T a, T b, T c, T d)
	{
		A = a; B = b; C = c; D = d;
		const ld e = exact ? 0 : mc::eps<T>();
		const ld la = a, lb = b, lc = c, ld_ = d;
		auto m = [](ld v) { return v < 0 ? -v : v; };
		Z x(a, b), y(c, d);
		const ld sum_re = la + lc, sum_im = lb + ld_, dif_re = la - lc, dif_im = lb - ld_;
		const ld t1 = e * (m(la) + m(lc)), t2 = e * (m(lb) + m(ld_));
		check("a + b", x + y, sum_re, sum_im, t1, t2);
		check("a - b", x - y, dif_re, dif_im, t1, t2);
		const ld pre = la * lc - lb * ld_, pim = la * ld_ + lb * lc;
		const ld t3 = 2 * e * (m(la * lc) + m(lb * ld_)), t4 = 2 * e * (m(la * ld_) + m(lb * lc));
		check("a * b", x * y, pre, pim, t3, t4);
		check("real * b", a * y, la * lc, la * ld_, e * m(la * lc), e * m(la * ld_));
		MC_CHECK((x == y) == (a == c && b == d), "equality");
		MC_CHECK((x != y) == !(a == c && b == d), "inequality");
		// the compound forms, their results and aliasing
		Z z = x; z += y; check("a += b", z, sum_re, sum_im, t1, t2);
		z = x; check("value of a += b", z += y, sum_re, sum_im, t1, t2);
		z = x; z -= y; check("a -= b", z, dif_re, dif_im, t1, t2);
		z = x; check("value of a -= b", z -= y, dif_re, dif_im, t1, t2);
		z = x; z *= y; check("a *= b", z, pre, pim, t3, t4);
		z = x; check("value of a *= b", z *= y, pre, pim, t3, t4);
		z = y; z *= a; check("b *= real", z, la * lc, la * ld_, e * m(la * lc), e * m(la * ld_));
		z = y; check("value of b *= real", z *= a, la * lc, la * ld_, e * m(la * lc), e * m(la * ld_));
		z = x; z += z; check("a += a", z, 2 * la, 2 * lb, e * 2 * m(la), e * 2 * m(lb));
		z = x; z -= z; check("a -= a", z, 0, 0, 0, 0);
		z = x; z *= z; check("a *= a", z, la * la - lb * lb, 2 * la * lb, 2 * e * (la * la + lb * lb), 4 * e * m(la * lb));
		z = x; z *= z.real(); check("a *= real(a)", z, la * la, la * lb, e * la * la, e * m(la * lb));
		z = x; z = y; check("a = b", z, lc, ld_, 0, 0);
		z = x; z = c; check("a = real", z, lc, 0, 0, 0);
		z = x; check("value of a = real", z = c, lc, 0, 0, 0);
		z = x; z.real(c); check("setting the real part", z, lc, lb, 0, 0);
		z = x; z.imag(d); check("setting the imaginary part", z, la, ld_, 0, 0);
		check("operands afterwards", x, la, lb, 0, 0);
		check("operands afterwards", y, lc, ld_, 0, 0);
		if constexpr (!exact) {
			const ld n = lc * lc + ld_ * ld_;
			if (n > 0) {
				const ld qre = (la * lc + lb * ld_) / n, qim = (lb * lc - la * ld_) / n;
				const ld t5 = 4 * e * (m(la * lc) + m(lb * ld_)) / n, t6 = 4 * e * (m(lb * lc) + m(la * ld_)) / n;
				check("a / b", x / y, qre, qim, t5, t6);
				z = x; z /= y; check("a /= b", z, qre, qim, t5, t6);
				z = x; check("value of a /= b", z /= y, qre, qim, t5, t6);
				z = y; z /= z; check("b /= b", z, 1, 0, 4 * e, 8 * e * m(lc * ld_) / n);
				check("real / b", a / y, la * lc / n, -la * ld_ / n, 4 * e * m(la * lc) / n, 4 * e * m(la * ld_) / n);
			}
			if (c != 0) {
				const ld t7 = 2 * e * m(la / lc), t8 = 2 * e * m(lb / lc);
				check("a / real", x / c, la / lc, lb / lc, t7, t8);
				z = x; z /= c; check("a /= real", z, la / lc, lb / lc, t7, t8);
				z = x; check("value of a /= real", z /= c, la / lc, lb / lc, t7, t8);
				z = y; z /= z.real(); check("b /= real(b)", z, 1, ld_ / lc, 2 * e, 2 * e * m(ld_ / lc));
			}
		}
		++mc::res.evals;
	}
	static void single(T a, T b)
	{
		A = a; B = b; C = D = 0;
		const ld la = a, lb = b, e = exact ? 0 : mc::eps<T>();
		Z x(a, b);
		check("construction", x, la, lb, 0, 0);
		check("construction from real", Z(a), la, 0, 0, 0);
		check("default", Z(), 0, 0, 0, 0);
		Z copy(x);
		check("copy", copy, la, lb, 0, 0);
		check("+a", +x, la, lb, 0, 0);
		check("-a", -x, -la, -lb, 0, 0);
		check("conj(a)", conj(x), la, -lb, 0, 0);
		expect("norm(a)", norm(x), la * la + lb * lb, 2 * e * (la * la + lb * lb));
		if constexpr (!exact) {
			const ld r = sqrtl(la * la + lb * lb);
			expect("abs(a)", abs(x), r, 2 * e * r);
			if (r > 0) {
				ld w = atan2l(lb, la);
				expect("arg(a)", arg(x), w, 2 * e * (w < 0 ? -w : w));
			}
		}
		++mc::res.evals;
	}
	static void polars(const std::vector<T> &radii, int steps)
	{
		for (T r : radii) for (int k = -2 * steps; k <= 2 * steps; ++k) {
			volatile T vb = T(4 * acosl(-1) * k / steps / 2);
			T b = vb; // volatile: -ffast-math drops the rounding to T otherwise
			A = r; B = b;
			const ld e = mc::eps<T>();
			check("polar(a, b)", DSP::polar(r, b), (ld)r * cosl(b), (ld)r * sinl(b), 2 * e * std::abs(r), 2 * e * std::abs(r));
			++mc::res.evals;
		}
	}
	static void all(const std::vector<T> &v)
	{
		trace();
		for (T a : v) for (T b : v) single(a, b);
		for (T a : v) for (T b : v) for (T c : v) for (T d : v) pair(a, b, c, d);
		if constexpr (!exact) mc::note(str("%s: largest deviation over tolerance %.2f", mc::cur_name.c_str(), worst));
		mc::describe = nullptr;
	}
};

template <class T> std::vector<T> magnitudes(bool more)
{
	std::vector<T> v{0, 1, -1, T(0.1), T(-3), T(1e5), T(-1e-5), T(7.0 / 3)};
	if (more) for (T x : {T(-0.7), T(1e8), T(-1e8), T(1e-8), T(123456.7), T(-2)}) v.push_back(x);
	return v;
}

void register_scenarios()
{
	using mc::scenario;
	scenario("int", []() { Ops<int>::all({-3, -2, -1, 0, 1, 2, 5}); });
#define T_(T) \
	scenario("integers " #T, []() { Ops<T>::all(mc::san ? std::vector<T>{-3, -1, 0, 1, 2} : std::vector<T>{-7, -3, -2, -1, 0, 1, 2, 3, 5}); }); \
	scenario("magnitudes " #T, []() { Ops<T>::all(magnitudes<T>(!mc::san)); }); \
	scenario("polar " #T, []() { trace(); Ops<T>::polars({0, 1, T(0.3), 1000, T(1e-6), -1, T(-0.3), -50}, 720); mc::describe = nullptr; });
	T_(float) T_(double)
}
