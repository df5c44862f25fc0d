// C22: malformed WAV files
#include "files.hh"
#include "wav.hh"

using mc::str;

static std::string what;
static const Bytes *current;
static void trace() { mc::describe = []() { return what + (current ? ": " + hex(*current) : std::string()); }; }

enum Class { BAD, GOOD, EITHER };
// what the format demands of a header this reader supports
static Class classify(const Bytes &b, int &frames, bool &known)
{
	frames = -1;
	known = false;
	auto is = [&](size_t at, const char *s) { return b.size() >= at + 4 && !memcmp(b.data() + at, s, 4); };
	if (b.size() < 36 || !is(0, "RIFF") || !is(8, "WAVE") || !is(12, "fmt ")) return BAD;
	const int riff = le(b, 4, 4), fmt = le(b, 16, 4);
	if (fmt != 16 && fmt != 18) return BAD;
	const int format = le(b, 20, 2), channels = (int16_t)le(b, 22, 2), rate = le(b, 24, 4), byterate = le(b, 28, 4), block = (int16_t)le(b, 32, 2), bits = le(b, 34, 2);
	if (!((format == 1 && (bits == 8 || bits == 16)) || (format == 3 && bits == 32))) return BAD;
	if (le(b, 22, 2) == 0 || channels < 0) return channels == 0 ? BAD : EITHER;
	if (block != channels * bits / 8) return BAD;
	if ((long long)rate * block != byterate) return BAD;
	size_t at = 36;
	Class c = GOOD;
	int fact = -1;
	if (fmt == 18) {
		if (b.size() < 50) return BAD;
		if (le(b, 36, 2) != 0 || !is(38, "fact") || le(b, 42, 4) != 4) return BAD;
		fact = le(b, 46, 4);
		at = 50;
	}
	if (b.size() < at + 8 || !is(at, "data")) return BAD;
	const int data = le(b, at + 4, 4);
	if (riff > 0 && data > 0) {
		if ((long long)data + (long long)at != riff) return BAD;
		frames = data / block;
		known = true;
	}
	if (rate <= 0) c = EITHER;
	// the reader knows integer formats without and the float format with a fact chunk
	if ((fmt == 18) != (bits == 32)) c = EITHER;
	if (fmt == 18 && known && fact != frames) c = EITHER; // contradicting sizes: may be refused, or the count of the fact chunk believed
	return c;
}

static File *file;
template <class T>
void examine(const Bytes &b)
{
	current = &b;
	file->put(b);
	int frames;
	bool known;
	Class c = classify(b, frames, known);
	static mc::Arena<DSP::ReadWAV<T>> arena;
	struct Seen { bool good; int rate, channels, bits, frames; bool operator==(const Seen &o) const { return good == o.good && rate == o.rate && channels == o.channels && bits == o.bits && frames == o.frames; } } seen[2];
	for (int k = 0; k < 2; ++k) {
		DSP::ReadWAV<T> &r = arena.make(k ? 0xFF : 0x00, file->name.c_str());
		bool good = r.good();
		seen[k] = {good, r.rate(), r.channels(), r.bits(), r.frames()};
		if (c == BAD) MC_CHECK(!good, "malformed file is reported as good");
		if (c == GOOD) MC_CHECK(good, "well-formed file is refused");
		if (good) {
			MC_CHECK(r.bits() == 8 || r.bits() == 16 || r.bits() == 32, "good with %d bits", r.bits());
			MC_CHECK(r.channels() >= 1, "good with %d channels", r.channels());
			MC_CHECK(r.bits() == (int)le(b, 34, 2) && r.channels() == (int)le(b, 22, 2) && r.rate() == (int)le(b, 24, 4), "reports %d bits, %d channels, rate %d", r.bits(), r.channels(), r.rate());
			int fact = le(b, 16, 4) == 18 ? (int)le(b, 46, 4) : frames;
			MC_CHECK(r.frames() == frames || (known && r.frames() == fact) || (!known && r.frames() == -1), "reports %d frames instead of %d", r.frames(), frames);
		}
		// reading from it must do no harm and stay inside of the frames asked for
		const int ch = r.channels();
		if (ch <= 40000) {
			std::vector<T> buf(2 * max(ch, 0) + 8, T(-77));
			r.read(buf.data() + 4, 2);
			for (int i = 0; i < 4; ++i) MC_CHECK(buf[i] == T(-77) && buf[buf.size() - 1 - i] == T(-77), "memory outside of two frames was changed");
			r.skip(1);
			r.read(buf.data() + 4, 1);
			r.good();
		}
		if (c == BAD) MC_CHECK(!r.good(), "malformed file turned good");
		r.~ReadWAV();
		mc::step();
	}
	MC_CHECK(seen[0] == seen[1], "results depend on uninitialized memory: good %d/%d rate %d/%d channels %d/%d bits %d/%d frames %d/%d", seen[0].good, seen[1].good, seen[0].rate, seen[1].rate,
		seen[0].channels, seen[1].channels, seen[0].bits, seen[1].bits, seen[0].frames, seen[1].frames);
	++mc::res.evals;
	mc::outcome(mc::mix(mc::mix(mc::mix(seen[0].good, seen[0].rate), mc::mix(seen[0].channels, seen[0].bits)), mc::mix(seen[0].frames, b.size())));
	current = nullptr;
}

static Bytes base(int bits, int channels, int frames, bool sizes)
{
	Bytes data;
	for (int i = 0; i < frames * channels * bits / 8; ++i) data.push_back(i * 29 + 3);
	return wav_file(bits, channels, 48000, data, sizes);
}
struct Field { const char *name; int at, n; };
static std::vector<Field> fields(int bits)
{
	std::vector<Field> f = {{"RIFF", 0, 4}, {"RIFF size", 4, 4}, {"WAVE", 8, 4}, {"fmt", 12, 4}, {"fmt size", 16, 4}, {"format", 20, 2}, {"channels", 22, 2}, {"rate", 24, 4}, {"byte rate", 28, 4}, {"block", 32, 2}, {"bits", 34, 2}};
	if (bits == 32) for (Field x : {Field{"ext", 36, 2}, Field{"fact", 38, 4}, Field{"fact size", 42, 4}, Field{"fact count", 46, 4}, Field{"data", 50, 4}, Field{"data size", 54, 4}}) f.push_back(x);
	else for (Field x : {Field{"data", 36, 4}, Field{"data size", 40, 4}}) f.push_back(x);
	return f;
}
static std::vector<unsigned> values(const Field &f, unsigned old)
{
	std::vector<unsigned> v = {old, 0, 1, old + 1, old - 1, 0xffffffffu, 0x7fffffffu, 0x80000000u, 2, 4, 8, 16, 18, 24, 32, 3, old * 2, old << 8, 0x7fffffd3u, 0x7fff, 0x8000, 48000 * 2, 48000 * 4};
	if (f.n == 2) for (auto &x : v) x &= 65535;
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}

template <class T>
void all(int bits, int channels, bool sizes, int what_)
{
	trace();
	File f("bad.wav");
	file = &f;
	Bytes good = base(bits, channels, 3, sizes);
	const size_t header = bits == 32 ? 58 : 44;
	std::string name = str("%d bits, %d channels%s", bits, channels, sizes ? "" : ", unknown sizes");
	what = name + ", unchanged";
	examine<T>(good);
	if (what_ == 0) {
		for (size_t n = 0; n <= good.size(); ++n) {
			what = name + str(", truncated to %zu bytes", n);
			examine<T>(Bytes(good.begin(), good.begin() + n));
		}
		for (size_t i = 0; i < header; ++i) for (int v = 0; v < 256; ++v) {
			what = name + str(", byte %zu set to %02x", i, v);
			Bytes b(good);
			b[i] = v;
			examine<T>(b);
		}
		// a byte missing or inserted anywhere in the header
		for (size_t i = 0; i < header; ++i) {
			what = name + str(", byte %zu removed", i);
			Bytes b(good);
			b.erase(b.begin() + i);
			examine<T>(b);
			for (int v : {0, 1, 255, 32}) {
				what = name + str(", byte %02x inserted at %zu", v, i);
				b = good;
				b.insert(b.begin() + i, v);
				examine<T>(b);
			}
		}
	} else {
		auto fs = fields(bits);
		for (size_t i = 0; i < fs.size(); ++i) for (unsigned v : values(fs[i], le(good, fs[i].at, fs[i].n))) for (size_t j = i + 1; j < fs.size(); ++j) for (unsigned w : values(fs[j], le(good, fs[j].at, fs[j].n))) {
			what = name + str(", %s set to %08x, %s set to %08x", fs[i].name, v, fs[j].name, w);
			Bytes b(good);
			put_le(b, fs[i].at, v, fs[i].n);
			put_le(b, fs[j].at, w, fs[j].n);
			examine<T>(b);
		}
	}
	++mc::res.traces;
	mc::describe = nullptr;
}
// consistent headers over a grid of formats, channels, depths: exactly the supported ones are accepted
template <class T>
void grid()
{
	trace();
	File f("bad.wav");
	file = &f;
	for (int format : {0, 1, 2, 3, 6, 7, 17, 85, 65534}) for (int bits : {0, 1, 4, 8, 12, 16, 20, 24, 32, 33, 64, 65528}) for (int channels : {0, 1, 2, 3, 6, 255, 256, 4000, 32767, 32768, 65535}) for (int fmt : {0, 14, 16, 18, 20, 40}) for (int rate : {8000, 44100, 0, 1, -1, INT_MAX, 96000000}) {
		Bytes data(64, 7), b;
		add(b, "RIFF");
		size_t over = 12 + 8 + fmt + (fmt == 18 ? 12 : 0) + 8;
		add(b, data.size() + over - 8, 4);
		add(b, "WAVEfmt ");
		add(b, fmt, 4);
		size_t start = b.size();
		add(b, format, 2);
		add(b, channels, 2);
		add(b, rate, 4);
		unsigned block = (unsigned)channels * (bits / 8);
		add(b, (unsigned)rate * block, 4);
		add(b, block, 2);
		add(b, bits, 2);
		b.resize(start + fmt);
		if (fmt == 18) { add(b, "fact"); add(b, 4, 4); add(b, block ? data.size() / block : 0, 4); }
		add(b, "data");
		add(b, data.size(), 4);
		b.insert(b.end(), data.begin(), data.end());
		what = str("format %d, %d bits, %d channels, rate %d, format chunk of %d bytes", format, bits, channels, rate, fmt);
		examine<T>(b);
	}
	++mc::res.traces;
	mc::describe = nullptr;
}
template <class T>
void missing()
{
	trace();
	std::string name = mc::scratch_file("none.wav");
	unlink(name.c_str());
	mc::Arena<DSP::ReadWAV<T>> arena;
	for (std::string n : {name, std::string(""), name + "/x"}) for (int poison : {0x00, 0xFF, 0x5A}) {
		what = "missing file";
		DSP::ReadWAV<T> &r = arena.make(poison, n.c_str());
		MC_CHECK(!r.good(), "missing file reported as good");
		T buf[4] = {1, 2, 3, 4};
		r.skip(1);
		if (r.channels() <= 4) r.read(buf, 1);
		MC_CHECK(!r.good(), "missing file turned good");
		r.~ReadWAV();
		mc::step();
		++mc::res.evals;
	}
	++mc::res.traces;
	mc::describe = nullptr;
}

void register_scenarios()
{
	for (int bits : {8, 16, 32}) for (int channels : {1, 2}) for (bool sizes : {true, false}) {
		mc::scenario(str("bytes, %d bits, %d channels, sizes %d", bits, channels, sizes), [=]() { all<float>(bits, channels, sizes, 0); });
		mc::scenario(str("field pairs, %d bits, %d channels, sizes %d", bits, channels, sizes), [=]() { all<float>(bits, channels, sizes, 1); });
	}
	mc::scenario("bytes, double", []() { all<double>(16, 2, true, 0); });
	mc::scenario("grid of formats", grid<float>);
	mc::scenario("missing file", []() { missing<float>(); missing<double>(); });
}
