// C43: the headers alone, in every ordered pair, in several translation units and in many orders.
// The library is not included here: every configuration is a program of its own, compiled, linked and run.
#include "mc.hh"
#include <sys/stat.h>
#include <sys/wait.h>

using mc::str;
typedef std::vector<std::string> Strings;

static const char *const known[] = {
	"amd", "atan2", "bip_buffer", "biquad", "blockdc", "calculus", "cdc", "coeffs", "complex", "const", "cordic", "decibel", "delay", "deque",
	"ema", "exp", "fdzp", "fft", "filter", "fmd", "hilbert", "kahan", "lms", "movext", "netpbm", "normalize", "pcm", "pel", "phasor", "quick",
	"regression", "repeated_median", "resampler", "sma", "spline", "stack", "swa", "theil_sen", "trigger", "unit_circle", "utils", "wav", "window",
};
static std::string repo() { const char *r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
static std::string here() { std::string f = __FILE__; return f.substr(0, f.rfind("/checks/")); }
static bool present(const std::string &h) { struct stat st; return !stat((repo() + "/" + h + ".hh").c_str(), &st); }
static Strings headers() { Strings v; for (const char *h : known) if (present(h)) v.push_back(h); return v; }

static void put(const std::string &name, const std::string &text)
{
	FILE *f = fopen(name.c_str(), "w");
	if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) { perror(name.c_str()); _exit(3); }
}
static std::string get(const std::string &name)
{
	std::string s;
	if (FILE *f = fopen(name.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); }
	return s;
}
static std::string tail_of_errors(const std::string &s)
{
	std::string r;
	for (size_t a = 0; a < s.size() && r.size() < 700; ) {
		size_t b = s.find('\n', a);
		if (b == s.npos) b = s.size();
		std::string l = s.substr(a, b - a);
		if (l.find("error") != l.npos || l.find("multiple definition") != l.npos || l.find("undefined") != l.npos || l.find("duplicate") != l.npos) r += l + "\n";
		a = b + 1;
	}
	return r.empty() ? s.substr(0, 500) : r;
}
// false: the tool refused; anything but a plain refusal is a problem of the machinery
static bool tool(const std::string &cmd, std::string *said = nullptr, bool may_crash = false)
{
	const std::string err = mc::scratch_file("messages");
	int st = std::system(("TMPDIR='" + mc::scratch("") + "' timeout 200 " + cmd + " > '" + err + "' 2>&1").c_str());
	mc::step();
	if (st == -1 || !WIFEXITED(st) || (WEXITSTATUS(st) >= 124 && !(may_crash && WEXITSTATUS(st) > 128))) { fprintf(stderr, "%s: status %d\n%s\n", cmd.c_str(), st, get(err).c_str()); _exit(3); }
	if (said) *said = get(err);
	return WEXITSTATUS(st) == 0;
}

struct Compiler
{
	std::string cxx, flags;
	std::string pre; // the standard headers and names the library leaves to its users, precompiled where possible
	Compiler(const std::string &cxx, bool run) : cxx(cxx)
	{
		flags = std::string(" -std=c++17 -w -fno-exceptions -fno-rtti -ffast-math ") + (run ? "-O1" : "-O0");
		pre = mc::scratch_file("pre.hh");
		std::string s = "#pragma once\n";
		for (const char *i : {"algorithm", "array", "cassert", "cmath", "complex", "cstdint", "cstdio", "cstdlib", "cstring", "deque", "fstream", "functional", "iostream", "limits", "list", "map", "new", "numeric", "set", "string", "type_traits", "utility", "vector", "chrono", "climits", "csetjmp", "csignal", "cstdarg", "unordered_map", "unordered_set", "sys/time.h", "unistd.h"}) s += str("#include <%s>\n", i);
		put(pre, s + "using std::min;\nusing std::max;\n");
		mc::scratch_file(cxx == "g++" ? "pre.hh.gch" : "pre.hh.pch");
		if (!tool(cxx + flags + " -x c++-header '" + pre + "' -o '" + pre + (cxx == "g++" ? ".gch'" : ".pch'"))) { fprintf(stderr, "the standard headers do not compile\n"); _exit(3); }
	}
	std::string base() const { return cxx + flags + (cxx == "g++" ? " -include '" + pre + "'" : " -include-pch '" + pre + ".pch'") + " -I'" + repo() + "'"; }
	bool syntax(const std::string &src, std::string *said) const { return tool(base() + " -fsyntax-only '" + src + "'", said); }
	bool object(const std::string &src, const std::string &out, std::string *said, const std::string &more = "") const { return tool(base() + more + " -c '" + src + "' -o '" + out + "'", said); }
	bool link(const std::string &objs, const std::string &out, std::string *said) const { return tool(cxx + flags + " " + objs + " -o '" + out + "'", said); }
};
static Strings compilers()
{
	static Strings v;
	if (v.empty()) {
		v.push_back("g++");
		if (!std::system("echo '#include <fstream>' | clang++ -std=c++17 -fsyntax-only -x c++ - > /dev/null 2>&1")) v.push_back("clang++");
	}
	return v;
}
// two headers expect another one before them
static std::string include(const std::string &h)
{
	std::string s;
	if (h == "fmd") s = "#include \"const.hh\"\n";
	if (h == "amd") s = "#include \"utils.hh\"\n";
	return s + "#include \"" + h + ".hh\"\n";
}
static std::string what;

// names of users, which a header must not occupy outside of its namespace
static std::string user()
{
	std::string s = "enum { PI, TAU, TWO_PI, HALF_PI, SQR, SWAP, MIN, MAX, ABS, CLAMP, LERP, SIZE, NUM, LEN, TAPS, BITS, BYTES, TYPE, VALUE, CMPLX, OVER, ORDER, KNOTS, STRIDE, "
		"EPS, EPSILON, HALF, ONE, ZERO, SCALE, SHIFT, MASK, TABLE, COUNT, FAC, LUT, OP, INPUT, OUTPUT, RADIX, BINS, SIGN, NORM, TINY, ASSERT, DEBUG, ";
	for (char c = 'A'; c <= 'Z'; ++c) s += str("%c, ", c);
	s += "LAST };\n";
	const char *const types[] = {"vector", "list", "map", "set", "array", "pair", "function", "complex", "count", "distance", "size", "data", "begin", "end", "prev", "next", "left", "right", "fixed", "hex", "plus", "minus", "less", "greater",
		"swap", "sort", "copy", "fill", "find", "equal", "search", "merge", "unique", "rotate", "reverse", "iota", "accumulate", "clamp", "move", "partition", "nth_element", "lower_bound",
		"Complex", "Const", "Delay", "Deque", "Stack", "Coeffs", "Kahan", "Phasor", "Biquad", "Hilbert", "Kaiser", "Hann", "Rect", "LowPass", "Resampler", "EMA", "SWA", "NLMS", "FDZP", "CORDIC", "UnitCircle", "ReadWAV", "WritePNM", "ReadPEL", "WritePCM",
		"sinc", "delta", "signum", "decibel", "idecibel", "kahan_sum", "quick_sort", "quick_select", "median", "insertion", "normal_pdf", "arg", "norm", "conj", "polar", "real", "imag"};
	for (const char *t : types) s += str("struct %s { int v; };\nint use_%s() { %s x = {1}; return x.v; }\n", t, t, t);
	return s;
}
// one header: alone, twice, next to the names of a user, in two translation units, before every other one
static void pairs(const std::string &first)
{
	mc::describe = [] { return what; };
	for (const std::string &cxx : compilers()) {
		Compiler c(cxx, false);
		const std::string src = mc::scratch_file("a.cc"), src2 = mc::scratch_file("b.cc"), obj = mc::scratch_file("a.o"), obj2 = mc::scratch_file("b.o"), exe = mc::scratch_file("exe");
		std::string said;
		auto judge = [&](const std::string &name, bool ok) {
			what = cxx + ", " + name;
			++mc::res.evals;
			mc::outcome(mc::mix(std::hash<std::string>()(what), ok));
			MC_CHECK(ok, "%s", tail_of_errors(said).c_str());
			if (mc::want_sample()) mc::sample(what);
		};
		put(src, include(first));
		judge(first + ".hh alone", c.syntax(src, &said));
		put(src, include(first) + include(first) + "int main() {}\n");
		judge(first + ".hh twice", c.object(src, obj, &said));
		put(src2, include(first));
		judge(first + ".hh twice in another translation unit", c.object(src2, obj2, &said));
		judge(first + ".hh in two translation units of one program", c.link("'" + obj + "' '" + obj2 + "'", exe, &said));
		put(src, include(first) + user());
		judge(first + ".hh followed by names of its user", c.syntax(src, &said));
		for (const std::string &second : headers()) {
			if (second == first) continue;
			put(src, include(first) + include(second));
			judge(first + ".hh before " + second + ".hh", c.syntax(src, &said));
		}
	}
	mc::describe = nullptr;
}

// the users of C40 in one translation unit with a given order of headers
static std::string unit(const Strings &order, const std::string &name)
{
	std::string s;
	for (const std::string &h : order) s += include(h);
	// the machinery is renamed, as it is not made for more than one translation unit
	for (const char *own : {"main", "mc", "act", "register_scenarios", "mc_assert_hook", "__assert_fail"}) s += str("#define %s %s_%s\n", own, name.c_str(), own);
	return s + "#include \"actors.hh\"\n#undef main\nvoid register_scenarios() {}\n"
		"void " + name + "()\n{\n\tact::prepare();\n\talignas(64) static unsigned char slot[1 << 16];\n"
		"\tfor (auto &a : act::all()) for (int salt = 0; salt < 2; ++salt) {\n"
		"\t\tstatic act::Log log;\n\t\tlog.n = 0;\n\t\tmemset(slot, 0x4B, sizeof slot);\n\t\ta.make(slot, salt);\n"
		"\t\tfor (int t = 0; t < act::CALLS; ++t) a.call(slot, t, salt, log);\n\t\ta.destroy(slot);\n"
		"\t\tprintf(\"%s %d\", a.name, log.n);\n\t\tfor (int i = 0; i < log.n; ++i) printf(\" %.9g\", log.v[i]);\n\t\tprintf(\"\\n\");\n\t}\n\tmc::cleanup();\n}\n";
}
static Strings words(const std::string &s)
{
	Strings v;
	std::string w;
	for (char ch : s) if (ch == ' ' || ch == '\n') { if (!w.empty()) v.push_back(w); w.clear(); } else w += ch;
	if (!w.empty()) v.push_back(w);
	return v;
}
static void compare(const std::string &got, const std::string &want)
{
	Strings a = words(got), b = words(want);
	MC_CHECK(a.size() == b.size(), "%zu results instead of %zu", a.size(), b.size());
	std::string user;
	for (size_t i = 0; i < a.size(); ++i) {
		++mc::res.evals;
		if (a[i] == b[i]) { if (isalpha((unsigned char)b[i][0]) && b[i] != "nan" && b[i] != "inf") user = b[i]; continue; }
		double x = strtod(a[i].c_str(), nullptr), y = strtod(b[i].c_str(), nullptr);
		MC_CHECK(mc::near(x, y, 1e-5 * (1 + std::abs(y))) || (!mc::finite_bits(x) && !mc::finite_bits(y)), "a result of %s is %s instead of %s", user.c_str(), a[i].c_str(), b[i].c_str());
	}
}
// the given header first and the others forwards and backwards in two translation units of one program; and last
static void orders(const std::string &pivot)
{
	mc::describe = [] { return what; };
	Compiler c("g++", true);
	const std::string ref = mc::scratch_file("ref.cc"), a = mc::scratch_file("a.cc"), b = mc::scratch_file("b.cc"), ro = mc::scratch_file("ref.o"), ao = mc::scratch_file("a.o"), bo = mc::scratch_file("b.o"), exe = mc::scratch_file("exe"), mo = mc::scratch_file("main.o"), m = mc::scratch_file("main.cc");
	const std::string more = " -I'" + here() + "/mc' -I'" + here() + "/checks'";
	std::string said, want;
	put(ref, unit({}, "ref") + "int main() { ref(); }\n");
	if (!c.object(ref, ro, &said, more) || !c.link("'" + ro + "'", exe, &said)) {
		mc::note("the users do not compile in the usual order, nothing to compare with: " + tail_of_errors(said).substr(0, 200));
		mc::res.exhaustive = false;
		return;
	}
	if (!tool("'" + exe + "'", &want, true)) { mc::note("the users fail in the usual order, nothing to compare with"); mc::res.exhaustive = false; return; }
	Strings all = headers(), one, two;
	for (const std::string &h : all) if (h != pivot) one.push_back(h);
	two.assign(one.rbegin(), one.rend());
	put(m, "void first();\nvoid second();\nint main(int argc, char **) { if (argc > 1) second(); else first(); }\n");
	MC_CHECK(tool("g++ -c '" + m + "' -o '" + mo + "'", &said), "machinery: %s", said.c_str());
	for (bool last : {false, true}) {
		Strings x = one, y = two;
		x.insert(last ? x.end() : x.begin(), pivot);
		y.insert(last ? y.end() : y.begin(), pivot);
		what = str("%s.hh %s, the others forwards and backwards in two translation units", pivot.c_str(), last ? "last" : "first");
		put(a, unit(x, "first"));
		put(b, unit(y, "second"));
		MC_CHECK(c.object(a, ao, &said, more), "%s", tail_of_errors(said).c_str());
		MC_CHECK(c.object(b, bo, &said, more), "%s", tail_of_errors(said).c_str());
		MC_CHECK(c.link("'" + mo + "' '" + ao + "' '" + bo + "'", exe, &said), "%s", tail_of_errors(said).c_str());
		for (const char *arg : {"", " x"}) {
			MC_CHECK(tool("'" + exe + "'" + arg, &said, true), "the program fails: %s", said.substr(said.size() > 300 ? said.size() - 300 : 0).c_str());
			compare(said, want);
			++mc::res.evals;
			mc::outcome(mc::mix(std::hash<std::string>()(said), std::hash<std::string>()(what + arg)));
		}
		if (mc::want_sample()) mc::sample(what);
	}
	mc::describe = nullptr;
}

void register_scenarios()
{
	for (const std::string &h : headers()) {
		mc::scenario("header " + h, [=]() { pairs(h); });
		mc::scenario("orders around " + h, [=]() { orders(h); });
	}
	mc::scenario("all present", []() { for (const char *h : known) { if (!present(h)) mc::note(str("%s.hh does not exist and is left out", h)); mc::step(); ++mc::res.evals; mc::outcome(std::hash<std::string>()(h)); } });
}
