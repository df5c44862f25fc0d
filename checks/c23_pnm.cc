// C23: Netpbm images written and read back
#include "files.hh"
#include "netpbm.hh"

using mc::str;
typedef mc::ld ld;

static std::string what;
static void trace() { mc::describe = []() { return what; }; }

static double srgb(double v) // linear to encoded
{
	if (!(v > 0)) v = 0;
	if (v > 1) v = 1;
	return v <= 0.04045 / 12.92 ? 12.92 * v : 1.055 * std::pow(v, 1 / 2.4) - 0.055;
}
static double linear(double e) { return e <= 0.04045 ? e / 12.92 : std::pow((e + 0.055) / 1.055, 2.4); }

struct Pnm { bool mono = false; int width = 0, height = 0, maxval = 0; std::vector<int> codes; };
static Pnm parse(const Bytes &b)
{
	Pnm p;
	size_t at = 2;
	MC_CHECK(b.size() > 2 && b[0] == 'P' && (b[1] == '5' || b[1] == '6'), "magic number: %s", hex(b, 20).c_str());
	p.mono = b[1] == '5';
	for (int *n : {&p.width, &p.height, &p.maxval}) {
		MC_CHECK(at < b.size() && (b[at] == ' ' || b[at] == '\n' || b[at] == '\t'), "header: %s", hex(b, 20).c_str());
		while (at < b.size() && (b[at] == ' ' || b[at] == '\n' || b[at] == '\t')) ++at;
		MC_CHECK(at < b.size() && b[at] >= '0' && b[at] <= '9', "header: %s", hex(b, 20).c_str());
		for (*n = 0; at < b.size() && b[at] >= '0' && b[at] <= '9'; ++at) *n = 10 * *n + b[at] - '0';
	}
	MC_CHECK(at < b.size() && (b[at] == ' ' || b[at] == '\n' || b[at] == '\t'), "end of header: %s", hex(b, 20).c_str());
	++at;
	const int bytes = p.maxval > 255 ? 2 : 1;
	MC_CHECK((b.size() - at) % bytes == 0, "odd size");
	for (; at < b.size(); at += bytes) p.codes.push_back(bytes == 2 ? b[at] << 8 | b[at + 1] : b[at]);
	return p;
}
static bool code_ok(int maxval, double v, int code)
{
	double d = maxval * srgb(v) - code;
	return (d < 0 ? -d : d) <= 0.5 + 1e-3 + maxval * 1e-6 && code >= 0 && code <= maxval;
}
// the decoded value; near the knee of the curve both branches are acceptable
template <class T> bool value_ok(int maxval, int code, T got)
{
	double e = (double)code / maxval, want = linear(e), tol = 16 * mc::eps<T>() * (want + 1e-9);
	double knee = 0.04045 * maxval - code;
	double other = (knee < 0 ? -knee : knee) <= 1 ? (e <= 0.04045 ? std::pow((e + 0.055) / 1.055, 2.4) : e / 12.92) : want;
	double lo = min(want, other) - tol, hi = max(want, other) + tol;
	return mc::finite_bits(got) && got >= lo && got <= hi;
}
static Bytes image(bool mono, int width, int height, int maxval, const std::vector<int> &codes)
{
	Bytes b;
	add(b, str("P%d %d %d %d\n", mono ? 5 : 6, width, height, maxval).c_str());
	for (int c : codes) {
		if (maxval > 255) b.push_back(c >> 8);
		b.push_back(c);
	}
	return b;
}
// every code: decodes to the curve, grows, encodes back to itself
template <class T>
void codes(int maxval)
{
	what = str("all codes for maximum %d", maxval);
	std::vector<int> all(maxval + 1);
	for (int i = 0; i <= maxval; ++i) all[i] = i;
	static File file("c.pnm");
	file.put(image(true, maxval + 1, 1, maxval, all));
	std::vector<T> buf(maxval + 1);
	{
		DSP::ReadPNM<T> r(file.name.c_str());
		MC_CHECK(r.good() && r.width() == maxval + 1 && r.height() == 1 && r.mono(), "valid image refused");
		r.read(buf.data(), maxval + 1);
		MC_CHECK(r.good(), "not good within the image");
	}
	for (int i = 0; i <= maxval; ++i) {
		MC_CHECK(value_ok<T>(maxval, i, buf[i]), "code %d of %d reads as %.9g instead of %.9g", i, maxval, (double)buf[i], linear((double)i / maxval));
		if (i) MC_CHECK(buf[i] > buf[i - 1], "code %d of %d reads as %.9g, not more than %.9g before", i, maxval, (double)buf[i], (double)buf[i - 1]);
		++mc::res.evals;
	}
	const std::string name = mc::scratch_file("d.pnm");
	{
		DSP::WritePNM<T> w(name.c_str(), maxval + 1, 1, true, maxval);
		w.write(buf.data(), maxval + 1);
		MC_CHECK(w.good(), "writer not good");
	}
	Pnm p = parse(slurp(name));
	MC_CHECK(p.mono && p.width == maxval + 1 && p.height == 1 && p.maxval == maxval && p.codes.size() == all.size(), "written image: %d x %d, maximum %d, %zu samples", p.width, p.height, p.maxval, p.codes.size());
	for (int i = 0; i <= maxval; ++i) MC_CHECK(p.codes[i] == i, "code %d of %d becomes %d", i, maxval, p.codes[i]);
	mc::step();
	mc::step();
	++mc::res.traces;
	mc::outcome(mc::mix(maxval, mc::bits(buf[maxval / 2])));
}
template <class T>
void code_range(int lo, int hi, int step)
{
	trace();
	for (int m = lo; m <= hi; m += step) codes<T>(m);
	mc::describe = nullptr;
}
// linear values on a fine grid and beyond both ends
template <class T>
void values(int maxval)
{
	trace();
	what = str("values for maximum %d", maxval);
	std::vector<T> v;
	const int n = mc::pick(3000, 60000, 600000);
	for (int i = -n / 20; i <= n + n / 20; ++i) v.push_back(T((double)i / n));
	for (int i = 0; i <= n; ++i) v.push_back(T(0.008 * i / n)); // around the knee
	for (double x : {-1e30, -5., 5., 1e30, -1e-30, 1e-30}) v.push_back(T(x));
	const std::string name = mc::scratch_file("v.pnm");
	{
		DSP::WritePNM<T> w(name.c_str(), v.size(), 1, true, maxval);
		w.write(v.data(), v.size());
	}
	Pnm p = parse(slurp(name));
	MC_CHECK(p.codes.size() == v.size() && p.maxval == maxval, "%zu samples instead of %zu", p.codes.size(), v.size());
	for (size_t i = 0; i < v.size(); ++i) {
		MC_CHECK(code_ok(maxval, v[i], p.codes[i]), "linear value %.9g is stored as %d of %d instead of %.3f", (double)v[i], p.codes[i], maxval, maxval * srgb(v[i]));
		if (i && i <= (size_t)n + n / 10 && v[i] > v[i - 1]) MC_CHECK(p.codes[i] >= p.codes[i - 1], "codes fall from %.9g to %.9g", (double)v[i - 1], (double)v[i]);
		++mc::res.evals;
		mc::outcome(p.codes[i]);
	}
	mc::step();
	++mc::res.traces;
	mc::describe = nullptr;
}
// all ways of splitting the pixels into calls, with strides
template <class T>
void splits(bool mono, int width, int height, int maxval)
{
	trace();
	const int n = width * height, c = mono ? 1 : 3;
	std::vector<T> pixels(n * c);
	for (int i = 0; i < n * c; ++i) pixels[i] = T((i * 31 + 5) % 97) / T(90) - T(0.02);
	const std::string name = mc::scratch_file("s.pnm");
	// a split is a set of cuts; each part has one of three strides
	for (int cuts = 0; cuts < 1 << (n - 1); ++cuts) for (int mode = 0; mode < 4; ++mode) {
		std::vector<int> parts(1, 1);
		for (int i = 0; i < n - 1; ++i) if (cuts >> i & 1) parts.push_back(1); else ++parts.back();
		what = str("%s %d x %d, maximum %d, strides %d, parts", mono ? "mono" : "color", width, height, maxval, mode);
		for (int p : parts) what += str(" %d", p);
		auto stride = [&](int k) { int m = mode == 3 ? k % 3 : mode; return m == 0 ? -1 : m == 1 ? c + 1 : c + 3; };
		{
			DSP::WritePNM<T> w(name.c_str(), width, height, mono, maxval);
			MC_CHECK(w.good() && w.mono() == mono && w.width() == width && w.height() == height, "accessors of the writer");
			int at = 0, k = 0;
			for (int p : parts) {
				int s = stride(k++), st = s < 0 ? c : s;
				std::vector<T> buf(st * (p - 1) + c, T(0.77));
				for (int i = 0; i < p; ++i) for (int j = 0; j < c; ++j) buf[st * i + j] = pixels[(at + i) * c + j];
				if (s < 0) w.write(buf.data(), p);
				else w.write(buf.data(), p, s);
				at += p;
				mc::step();
			}
			w.write(pixels.data(), 0);
			MC_CHECK(w.good(), "writer not good");
		}
		Pnm p = parse(slurp(name));
		MC_CHECK(p.mono == mono && p.width == width && p.height == height && p.maxval == maxval && p.codes.size() == pixels.size(), "image of %d x %d, maximum %d with %zu samples", p.width, p.height, p.maxval, p.codes.size());
		for (size_t i = 0; i < pixels.size(); ++i) MC_CHECK(code_ok(maxval, pixels[i], p.codes[i]), "sample %zu of value %.9g is stored as %d", i, (double)pixels[i], p.codes[i]);
		{
			DSP::ReadPNM<T> r(name.c_str());
			MC_CHECK(r.good() && r.mono() == mono && r.width() == width && r.height() == height, "accessors of the reader: %d x %d", r.width(), r.height());
			int at = 0, k = 0;
			for (int q : parts) {
				int s = stride(k++), st = s < 0 ? c : s;
				std::vector<T> buf(st * (q - 1) + c + 8, T(-77));
				if (s < 0) r.read(buf.data() + 4, q);
				else r.read(buf.data() + 4, q, s);
				std::vector<char> used(buf.size(), 0);
				for (int i = 0; i < q; ++i) for (int j = 0; j < c; ++j) {
					used[4 + st * i + j] = 1;
					MC_CHECK(value_ok<T>(maxval, p.codes[(at + i) * c + j], buf[4 + st * i + j]), "sample %d of pixel %d reads as %.9g", j, at + i, (double)buf[4 + st * i + j]);
				}
				for (size_t i = 0; i < buf.size(); ++i) MC_CHECK(used[i] || buf[i] == T(-77), "element %d outside of the request was changed", (int)i - 4);
				MC_CHECK(r.good(), "not good within the image");
				at += q;
				mc::step();
			}
		}
		++mc::res.states;
		++mc::res.traces;
		++mc::res.evals;
		mc::outcome(std::hash<std::string>()(what));
	}
	mc::describe = nullptr;
}
// every image size
template <class T>
void sizes()
{
	trace();
	const std::string name = mc::scratch_file("z.pnm");
	std::vector<std::pair<int, int>> dims;
	for (int width = 1; width <= mc::pick(12, 40, 100); ++width) for (int height : {1, 2, 3, 7, 9, 10, 11, 40}) dims.push_back({width, height});
	for (int n : {99, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 4096, 10000, 32768, 65535, 65536, 70000}) { dims.push_back({n, 2}); dims.push_back({2, n}); }
	dims.push_back({640, 480});
	for (auto dim : dims) for (bool mono : {true, false}) for (int maxval : {255, 1000}) {
		const int width = dim.first, height = dim.second, n = width * height, c = mono ? 1 : 3;
		what = str("%s %d x %d, maximum %d", mono ? "mono" : "color", width, height, maxval);
		std::vector<T> v(n * c), b(n * c);
		for (int i = 0; i < n * c; ++i) v[i] = T(i % 101) / T(100);
		{
			// through the interface, as applications do
			DSP::WritePEL<T> *w = new DSP::WritePNM<T>(name.c_str(), width, height, mono, maxval);
			for (int y = 0; y < height; ++y) w->write(v.data() + y * width * c, width);
			MC_CHECK(w->good() && w->mono() == mono && w->width() == width && w->height() == height, "accessors of the writer");
			delete w;
		}
		Pnm p = parse(slurp(name));
		MC_CHECK(p.mono == mono && p.width == width && p.height == height && p.maxval == maxval && p.codes.size() == v.size(), "image of %d x %d, maximum %d with %zu samples", p.width, p.height, p.maxval, p.codes.size());
		for (size_t i = 0; i < v.size(); ++i) MC_CHECK(code_ok(maxval, v[i], p.codes[i]), "sample %zu", i);
		DSP::ReadPNM<T> r(name.c_str());
		MC_CHECK(r.good() && r.mono() == mono && r.width() == width && r.height() == height, "accessors of the reader");
		DSP::ReadPEL<T> *rp = &r;
		rp->read(b.data(), n);
		MC_CHECK(rp->good() && rp->mono() == mono && rp->width() == width && rp->height() == height, "not good within the image");
		for (size_t i = 0; i < v.size(); ++i) MC_CHECK(value_ok<T>(maxval, p.codes[i], b[i]), "sample %zu reads as %.9g", i, (double)b[i]);
		r.read(b.data(), 1);
		MC_CHECK(!r.good(), "still good after reading past the end");
		mc::step();
		++mc::res.traces;
		++mc::res.evals;
		mc::outcome(std::hash<std::string>()(what));
	}
	for (bool mono : {true, false}) for (int maxval : {255, 1000}) for (int stride : {10, 255, 256, 32767, 32768, 65535, 65536, 100000}) {
		const int n = 4, c = mono ? 1 : 3;
		what = str("%s %d x 1, maximum %d, stride %d", mono ? "mono" : "color", n, maxval, stride);
		std::vector<T> in((n - 1) * stride + c, T(0.77)), out(in.size(), T(-77));
		for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) in[i * stride + j] = T(i * c + j) / T(16);
		{ DSP::WritePNM<T> w(name.c_str(), n, 1, mono, maxval); w.write(in.data(), n, stride); }
		Pnm p = parse(slurp(name));
		MC_CHECK((int)p.codes.size() == n * c, "%zu samples", p.codes.size());
		DSP::ReadPNM<T> r(name.c_str());
		r.read(out.data(), n, stride);
		MC_CHECK(r.good(), "not good within the image");
		for (size_t i = 0; i < out.size(); ++i) {
			int k = i / stride, j = i % stride;
			if (j < c) MC_CHECK(code_ok(maxval, in[i], p.codes[k * c + j]) && value_ok<T>(maxval, p.codes[k * c + j], out[i]), "sample %d of pixel %d is stored as %d and reads as %.9g", j, k, p.codes[k * c + j], (double)out[i]);
			else MC_CHECK(out[i] == T(-77), "element %zu outside of the request was changed", i);
		}
		mc::step();
		++mc::res.traces;
		++mc::res.evals;
		mc::outcome(std::hash<std::string>()(what));
	}
	// the defaults: color with maximum 255
	what = "defaults";
	{ DSP::WritePNM<T> w(name.c_str(), 1, 1); T v[3] = {0, T(0.5), 1}; w.write(v, 1); }
	Pnm p = parse(slurp(name));
	MC_CHECK(!p.mono && p.maxval == 255 && p.codes.size() == 3, "defaults");
	mc::describe = nullptr;
}

void register_scenarios()
{
	using mc::scenario;
	for (int i = 0; i < 8; ++i) {
		scenario(str("codes of small maxima, part %d of 8, float", i), [=]() { code_range<float>(1 + i, mc::pick(60, 2500, 8000), 8); });
		scenario(str("codes of small maxima, part %d of 8, double", i), [=]() { code_range<double>(1 + i, mc::pick(60, 1000, 3000), 8); });
	}
	for (int m : {255, 256, 257, 511, 1023, 4095, 10000, 16383, 32767, 32768, 65280, 65534, 65535}) scenario(str("codes of maximum %d", m), [=]() { trace(); codes<float>(m); codes<double>(m); mc::describe = nullptr; });
	for (int m : {1, 2, 7, 15, 100, 255, 256, 1023, 65535}) scenario(str("values for maximum %d", m), [=]() { values<float>(m); values<double>(m); });
	for (bool mono : {true, false}) for (int maxval : {255, 65535}) {
		scenario(str("splits %s %d float", mono ? "mono" : "color", maxval), [=]() { splits<float>(mono, mc::san ? 3 : 5, 2, maxval); });
		scenario(str("splits %s %d double", mono ? "mono" : "color", maxval), [=]() { splits<double>(mono, 2, 3, maxval); });
	}
	scenario("sizes float", sizes<float>);
	scenario("sizes double", sizes<double>);
}
