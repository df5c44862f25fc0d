// C24: headers of Netpbm files
#include "files.hh"
#include "netpbm.hh"

using mc::str;

static std::string what;
static const Bytes *current;
static void trace() { mc::describe = []() {
	std::string s = what;
	if (current) { s += ": "; for (unsigned char c : *current) s += c < 32 || c > 126 ? str("\\x%02x", c) : std::string(1, c); }
	return s;
}; }

struct Header { bool valid; bool mono; int width, height, maxval; size_t start; };
// reference parser of the grammar in the property: separators, comment lines directly after a line end
// tri-state: "unclaimed" is set for files the property says nothing about
static Header parse(const Bytes &b, bool &unclaimed)
{
	Header h = {false, false, 0, 0, 0, 0};
	unclaimed = false;
	auto at = [&](size_t i) { return i < b.size() ? (int)b[i] : -1; };
	auto space = [](int c) { return c == ' ' || c == '\n' || c == '\t'; };
	if (at(0) != 'P' || (at(1) != '5' && at(1) != '6')) return h;
	h.mono = at(1) == '5';
	size_t i = 2;
	if (at(i) == '\r' || at(i) == '\v' || at(i) == '\f') { unclaimed = true; return h; }
	if (!space(at(i))) return h;
	int num[3];
	for (int k = 0; k < 3; ++k) {
		if (at(i) == '\n') {
			++i;
			while (at(i) == '#') {
				while (at(i) >= 0 && at(i) != '\n') ++i;
				if (at(i) < 0) return h;
				++i;
			}
		}
		while (space(at(i))) ++i;
		if (at(i) == '#' || at(i) == '\r' || at(i) == '\v' || at(i) == '\f') { unclaimed = true; return h; } // comments elsewhere, other white space
		int digits = 0;
		long long n = 0;
		for (; at(i) >= '0' && at(i) <= '9'; ++i, ++digits) n = min(10 * n + at(i) - '0', 4000000000000LL);
		if (!digits) return h;
		if (n > INT_MAX) { unclaimed = true; return h; }
		num[k] = n;
		if (at(i) == '#' || at(i) == '\r' || at(i) == '\v' || at(i) == '\f') { unclaimed = true; return h; }
		if (!space(at(i))) return h;
	}
	h.valid = true;
	h.width = num[0];
	h.height = num[1];
	h.maxval = num[2];
	h.start = i + 1;
	if (h.width == 0 || h.height == 0 || h.maxval == 0 || h.maxval > 65535) unclaimed = true;
	return h;
}
static double linear(double e) { return e <= 0.04045 ? e / 12.92 : std::pow((e + 0.055) / 1.055, 2.4); }

static File *file;
template <class T>
void examine(const Bytes &b)
{
	current = &b;
	file->put(b);
	bool unclaimed;
	Header h = parse(b, unclaimed);
	static mc::Arena<DSP::ReadPNM<T>> arena;
	struct Seen { bool good, mono; int width, height; } seen[2];
	for (int k = 0; k < 2; ++k) {
		DSP::ReadPNM<T> &r = arena.make(k ? 0xFF : 0x00, file->name.c_str());
		bool good = r.good();
		seen[k] = {good, r.mono(), r.width(), r.height()};
		T buf[12];
		for (T &x : buf) x = T(-77);
		if (!unclaimed) {
			MC_CHECK(good == h.valid, h.valid ? "valid header refused" : "malformed header accepted");
			if (good) {
				MC_CHECK(r.mono() == h.mono && r.width() == h.width && r.height() == h.height, "reports %s %d x %d instead of %s %d x %d", r.mono() ? "mono" : "color", r.width(), r.height(), h.mono ? "mono" : "color", h.width, h.height);
				// the first pixel follows the header
				const int c = h.mono ? 1 : 3, bytes = h.maxval > 255 ? 2 : 1;
				r.read(buf + 4, 1);
				bool complete = b.size() >= h.start + c * bytes;
				MC_CHECK(r.good() == complete, complete ? "not good within the image" : "still good after reading past the end");
				if (complete) for (int j = 0; j < c; ++j) {
					int code = bytes == 2 ? b[h.start + 2 * j] << 8 | b[h.start + 2 * j + 1] : b[h.start + j];
					if (code > h.maxval) continue;
					double knee = 0.04045 * h.maxval - code, want = linear((double)code / h.maxval), d = (double)buf[4 + j] - want;
					if (knee > 1 || knee < -1) MC_CHECK(d < 1e-5 && d > -1e-5, "first pixel reads as %.9g instead of %.9g (code %d of %d)", (double)buf[4 + j], want, code, h.maxval);
				}
			}
		}
		r.read(buf + 4, 1);
		for (int i = 0; i < 4; ++i) MC_CHECK(buf[i] == T(-77) && buf[8 + i] == T(-77), "memory outside of the pixel was changed");
		if (!unclaimed && !h.valid) MC_CHECK(!r.good(), "malformed file turned good");
		r.~ReadPNM();
		mc::step();
	}
	MC_CHECK(seen[0].good == seen[1].good && seen[0].mono == seen[1].mono && seen[0].width == seen[1].width && seen[0].height == seen[1].height, "results depend on uninitialized memory: good %d/%d mono %d/%d width %d/%d height %d/%d",
		seen[0].good, seen[1].good, seen[0].mono, seen[1].mono, seen[0].width, seen[1].width, seen[0].height, seen[1].height);
	++mc::res.evals;
	mc::outcome(mc::mix(mc::mix(seen[0].good, seen[0].mono), mc::mix(mc::mix(seen[0].width, seen[0].height), std::hash<std::string>()(std::string(b.begin(), b.end())))));
	current = nullptr;
}
static Bytes bytes(const std::string &s) { return Bytes(s.begin(), s.end()); }

// all headers from a grammar of tokens and separators
template <class T>
void grammar()
{
	trace();
	what = "grammar";
	File f("g.pnm");
	file = &f;
	const std::vector<std::string> magic = {"P5", "P6"}, num = {"1", "12", "305", "007", "9"}, maxes = {"255", "1", "65535", "256", "00100"},
		sep = {" ", "\n", "\t", "  ", " \n", "\t\t \t", "\n#\n", "\n# a comment 12 13\n", "\n#a\n#b b\n", "\n#x\n ", "\n \t\n", "\n#\n\t", "\n\n"},
		end = {" ", "\n", "\t"};
	for (auto &m : magic) for (auto &a : sep) for (auto &w : num) for (auto &b : sep) for (auto &h : num) for (auto &c : sep) for (size_t x = 0; x < maxes.size(); ++x) {
		if (mc::san && (&w - &num[0] + (&h - &num[0])) % 3) continue;
		const std::string &e = end[(x + w.size() + a.size()) % 3];
		examine<T>(bytes(m + a + w + b + h + c + maxes[x] + e + "\x20\x0a\x23\x31\x41\x51#\n 12"));
	}
	++mc::res.traces;
	mc::describe = nullptr;
}
// all strings of a small alphabet after a magic number
template <class T>
void strings(const std::string &prefix, const std::string &alphabet, int length, int first)
{
	trace();
	what = "strings";
	File f("s.pnm");
	file = &f;
	mc::product(std::vector<int>(length - 1, alphabet.size()), [&](const std::vector<int> &v) {
		std::string s = prefix + alphabet[first];
		for (int i : v) s += alphabet[i];
		examine<T>(bytes(s));
	});
	++mc::res.traces;
	mc::describe = nullptr;
}
// truncations and corruptions of valid files
template <class T>
void corrupt(const std::string &good)
{
	trace();
	File f("c.pnm");
	file = &f;
	what = "unchanged";
	examine<T>(bytes(good));
	for (size_t n = 0; n < good.size(); ++n) { what = str("truncated to %zu", n); examine<T>(bytes(good.substr(0, n))); }
	for (size_t i = 0; i < good.size(); ++i) {
		what = str("byte %zu removed", i);
		examine<T>(bytes(good.substr(0, i) + good.substr(i + 1)));
		for (int v = 0; v < 256; ++v) {
			std::string s = good;
			s[i] = v;
			what = str("byte %zu changed", i);
			examine<T>(bytes(s));
			s = good;
			s.insert(i, 1, v);
			what = str("byte inserted at %zu", i);
			examine<T>(bytes(s));
		}
	}
	// two bytes
	const std::string other = " \n\t#05P-x\xff";
	for (size_t i = 0; i < good.size(); ++i) for (size_t j = i + 1; j < good.size(); ++j) for (char v : other) for (char w : other) {
		std::string s = good;
		s[i] = v;
		s[j] = w;
		what = str("bytes %zu and %zu changed", i, j);
		examine<T>(bytes(s));
	}
	++mc::res.traces;
	mc::describe = nullptr;
}
template <class T>
void missing()
{
	trace();
	std::string name = mc::scratch_file("none.pnm");
	unlink(name.c_str());
	mc::Arena<DSP::ReadPNM<T>> arena;
	for (std::string n : {name, std::string(""), name + "/x"}) for (int poison : {0x00, 0xFF, 0x5A}) {
		what = "missing file";
		DSP::ReadPNM<T> &r = arena.make(poison, n.c_str());
		MC_CHECK(!r.good(), "missing file reported as good");
		T buf[3];
		r.read(buf, 1);
		MC_CHECK(!r.good(), "missing file turned good");
		r.~ReadPNM();
		mc::step();
		++mc::res.evals;
	}
	++mc::res.traces;
	mc::describe = nullptr;
}

void register_scenarios()
{
	mc::scenario("grammar float", grammar<float>);
	if (!mc::san) mc::scenario("grammar double", grammar<double>);
	const std::string alphabet = " \n#1a";
	for (int i = 0; i < 5; ++i) for (const char *p : {"P5", "P6", "P"}) mc::scenario(str("strings after %s starting with %d", p, i), [=]() { for (int n = 1; n <= mc::pick(5, 8, 9); ++n) strings<float>(p, alphabet, n, i); });
	for (int i = 0; i < 4; ++i) mc::scenario(str("strings after width, %d", i), [=]() { for (int n = 1; n <= mc::pick(5, 8, 9); ++n) strings<float>("P5 7", " \n#2", n, i); });
	for (const char *s : {"P5 3 4 255\nabc", "P6\n10 2\n65535\nabcdefgh", "P5\n# comment\n3 1\n#x\n9\n12"}) mc::scenario(str("corruptions of %.2s %zu", s, strlen(s)), [=]() { corrupt<float>(s); });
	mc::scenario("missing file", []() { missing<float>(); missing<double>(); });
}
