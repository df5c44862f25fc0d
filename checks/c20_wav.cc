// C20: WAV files written and read back through all short operation sequences
#include "files.hh"
#include "wav.hh"

using mc::str;
typedef mc::ld ld;

static std::string what;
static void trace() { mc::describe = []() { return what; }; }
template <class T> T from(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }

// code of a sample, or the set of acceptable codes around a tie
static bool code_ok(int bits, double v, int code)
{
	const double off = bits == 8 ? 128 : 0, fac = bits == 8 ? 127 : 32767, lo = bits == 8 ? 0 : -32768, hi = bits == 8 ? 255 : 32767;
	double x = off + fac * v;
	if (x < lo) x = lo;
	if (x > hi) x = hi;
	double d = x - code;
	if (d < 0) d = -d;
	return d <= 0.5 + 0.01 * (bits == 16) + 1e-4;
}

struct Wav { int bits = 0, channels = 0; unsigned rate = 0; Bytes data; bool has_fact = false; unsigned fact = 0; };
// strict parser for the file a correct writer leaves behind
static Wav parse(const Bytes &b)
{
	Wav w;
	MC_CHECK(b.size() >= 44 && !memcmp(b.data(), "RIFF", 4) && !memcmp(b.data() + 8, "WAVE", 4), "not a RIFF/WAVE file: %s", hex(b).c_str());
	MC_CHECK(le(b, 4, 4) == b.size() - 8, "RIFF size %u in a file of %zu bytes", le(b, 4, 4), b.size());
	bool fmt = false, data = false;
	int format = 0;
	for (size_t at = 12; at < b.size();) {
		MC_CHECK(at + 8 <= b.size(), "trailing bytes");
		unsigned n = le(b, at + 4, 4);
		MC_CHECK(at + 8 + (size_t)n <= b.size(), "chunk of %u bytes at %zu exceeds the file of %zu bytes", n, at, b.size());
		if (!memcmp(b.data() + at, "fmt ", 4)) {
			MC_CHECK(n == 16 || (n == 18 && le(b, at + 24, 2) == 0), "format chunk of %u bytes", n);
			format = le(b, at + 8, 2);
			w.channels = le(b, at + 10, 2);
			w.rate = le(b, at + 12, 4);
			w.bits = le(b, at + 22, 2);
			MC_CHECK(le(b, at + 20, 2) == (unsigned)w.channels * w.bits / 8, "block size");
			MC_CHECK(le(b, at + 16, 4) == w.rate * w.channels * (w.bits / 8), "byte rate");
			fmt = true;
		} else if (!memcmp(b.data() + at, "fact", 4)) {
			w.has_fact = true;
			w.fact = le(b, at + 8, 4);
		} else if (!memcmp(b.data() + at, "data", 4)) {
			MC_CHECK(fmt, "data before format");
			w.data.assign(b.begin() + at + 8, b.begin() + at + 8 + n);
			data = true;
		}
		at += 8 + n;
	}
	MC_CHECK(fmt && data, "missing chunks");
	MC_CHECK(format == (w.bits == 32 ? 3 : 1), "format code %d for %d bits", format, w.bits);
	return w;
}

template <class T>
struct Samples
{
	std::vector<T> v;
	int at = 0;
	Samples(int bits)
	{
		for (double x : {0.0, 1.0, -1.0, 0.5, -0.25, 1.5, -1.5, 0.3, -0.7, 1 / 127.0, 1e-4, -1e-5, 0.999, 30.0, -1e9}) v.push_back(T(x));
		if (bits == 32) for (double x : {1e-30, 1e30, 0.1, -3.25}) v.push_back(T(float(x)));
	}
	T next() { return v[at++ % v.size()]; }
};

template <class T>
void compare(const Wav &w, int bits, int channels, int rate, const std::vector<T> &want, const std::vector<char> &silent)
{
	MC_CHECK(w.bits == bits && w.channels == channels && w.rate == (unsigned)rate, "header says %d bits, %d channels, rate %u", w.bits, w.channels, w.rate);
	const int bytes = bits / 8;
	MC_CHECK(w.data.size() == want.size() * bytes, "%zu bytes of data instead of %zu", w.data.size(), want.size() * bytes);
	if (w.has_fact) MC_CHECK(w.fact == want.size() / channels, "fact chunk says %u frames instead of %zu", w.fact, want.size() / channels);
	for (size_t i = 0; i < want.size(); ++i) {
		unsigned raw = le(w.data, i * bytes, bytes);
		if (bits == 32) {
			float f = want[i];
			MC_CHECK(raw == (uint32_t)mc::bits(f), "sample %zu is %08x instead of %08x", i, raw, (uint32_t)mc::bits(f));
		} else {
			int code = bits == 8 ? (int)raw : (int)(int16_t)raw;
			MC_CHECK(silent[i] ? code == (bits == 8 ? 128 : 0) : code_ok(bits, want[i], code), "sample %zu of value %.9g is stored as %d", i, (double)want[i], code);
		}
	}
}
// the value a reader has to deliver
template <class T> bool value_ok(int bits, unsigned raw, T got)
{
	if (bits == 32) { float f = got; return (uint32_t)mc::bits(f) == raw; }
	ld want = bits == 8 ? ((ld)(int)raw - 128) / 127 : (ld)(int16_t)raw / 32767, d = got - want;
	return mc::finite_bits(got) && (d < 0 ? -d : d) <= 2 * mc::eps<T>() * (want < 0 ? -want : want);
}

enum { W0, W1, W2, W3, WS, WZ, S0, S1, S3, WOPS };
static const char *const wnames[] = {"write(0)", "write(1)", "write(2)", "write(3)", "write(2,wide)", "write(2,0)", "silence(0)", "silence(1)", "silence(3)"};
template <class T>
void write_sequences(int bits, int channels, int rate, int depth)
{
	trace();
	const std::string name = mc::scratch_file("w.wav");
	const int stored = bits == 8 || bits == 16 ? bits : 32;
	for (int len = 0; len <= depth; ++len) mc::product(std::vector<int>(len, (int)WOPS), [&](const std::vector<int> &ops) {
		what = str("WriteWAV(rate %d, %d bits, %d channels)", rate, bits, channels);
		for (int o : ops) what += std::string(" ") + wnames[o];
		std::vector<T> want;
		std::vector<char> silent;
		Samples<T> src(stored);
		{
			DSP::WriteWAV<T> w(name.c_str(), rate, bits, channels);
			MC_CHECK(w.good(), "not good after opening");
			MC_CHECK(w.rate() == rate && w.channels() == channels, "accessors");
			for (int o : ops) {
				if (o >= S0) {
					int n = o == S0 ? 0 : o == S1 ? 1 : 3;
					w.silence(n);
					want.insert(want.end(), n * channels, T(0));
					silent.insert(silent.end(), n * channels, 1);
				} else {
					int n = o <= W3 ? o : 2, stride = o == WS ? channels + 2 : o == WZ ? 0 : -1, step = stride < 0 ? channels : stride;
					std::vector<T> buf(n ? step * (n - 1) + channels : 0);
					for (auto &x : buf) x = src.next();
					if (o < WS) w.write(buf.data(), n);
					else w.write(buf.data(), n, stride);
					for (int i = 0; i < n; ++i) for (int c = 0; c < channels; ++c) { want.push_back(buf[step * i + c]); silent.push_back(0); }
				}
				mc::step();
				MC_CHECK(w.good(), "not good after writing");
			}
		}
		Bytes file = slurp(name);
		Wav w = parse(file);
		compare<T>(w, stored, channels, rate, want, silent);
		{
			DSP::ReadWAV<T> r(name.c_str());
			const int frames = want.size() / channels;
			MC_CHECK(r.good(), "the reader rejects the written file");
			MC_CHECK(r.rate() == rate && r.channels() == channels && r.bits() == stored, "the reader reports rate %d, %d channels, %d bits", r.rate(), r.channels(), r.bits());
			MC_CHECK(r.frames() == frames || (!frames && r.frames() == -1), "the reader reports %d frames instead of %d", r.frames(), frames);
			std::vector<T> buf(frames * channels);
			r.read(buf.data(), frames);
			MC_CHECK(r.good(), "not good after reading all frames");
			for (size_t i = 0; i < buf.size(); ++i)
				MC_CHECK(value_ok<T>(stored, le(w.data, i * stored / 8, stored / 8), buf[i]), "sample %zu reads as %.9g", i, (double)buf[i]);
			T more[16];
			if (channels <= 16) { r.read(more, 1); MC_CHECK(!r.good(), "still good after reading past the end"); }
			mc::step();
		}
		++mc::res.states;
		++mc::res.traces;
		++mc::res.evals;
		mc::outcome(std::hash<std::string>()(std::string(file.begin(), file.end())));
	});
	mc::describe = nullptr;
}

enum { R0, R1, R2, RS, RW, RR, K0, K1, K2, KB, ROPS };
static const char *const rnames[] = {"read(0)", "read(1)", "read(2)", "read(2,+1)", "read(2,wide)", "read(2,0)", "skip(0)", "skip(1)", "skip(2)", "skip(-1)"};
template <class T>
void read_sequences(int bits, int channels, int frames, int depth)
{
	trace();
	Bytes data;
	for (int i = 0; i < frames * channels; ++i) {
		if (bits == 8) add(data, (i * 53 + 7) & 255, 1);
		else if (bits == 16) add(data, (i * 9973 + 40000) & 65535, 2);
		else { float f = (i - 4) * 0.37f; add(data, (unsigned)mc::bits(f), 4); }
	}
	File file("r.wav");
	file.put(wav_file(bits, channels, 8000, data));
	mc::product(std::vector<int>(depth, (int)ROPS), [&](const std::vector<int> &ops) {
		what = str("%d bits, %d channels, %d frames:", bits, channels, frames);
		DSP::ReadWAV<T> r(file.name.c_str());
		MC_CHECK(r.good() && r.frames() == frames && r.bits() == bits && r.channels() == channels && r.rate() == 8000, "valid file not accepted");
		int pos = 0;
		for (int o : ops) {
			what += std::string(" ") + rnames[o];
			if (o >= K0) {
				int n = o == KB ? -1 : o - K0;
				if (pos + n < 0) continue;
				r.skip(n);
				pos += n;
				if (pos <= frames) MC_CHECK(r.good(), "not good after skipping within the file");
			} else {
				int n = o <= R2 ? o : 2, stride = o == RS ? channels + 1 : o == RW ? channels + 4 : o == RR ? 0 : -1, step = stride < 0 ? channels : stride;
				std::vector<T> buf(step * 4 + channels + 8, T(-77));
				T *p = buf.data() + 4;
				if (o <= R2) r.read(p, n);
				else r.read(p, n, stride);
				std::vector<char> used(buf.size(), 0);
				for (int i = 0; i < n; ++i) for (int c = 0; c < channels; ++c) used[4 + step * i + c] = 1;
				for (size_t i = 0; i < buf.size(); ++i) MC_CHECK(used[i] || buf[i] == T(-77), "element %d outside of the request was changed", (int)i - 4);
				if (pos + n <= frames) {
					MC_CHECK(r.good(), "not good within the file");
					for (int i = 0; i < n; ++i) {
						if (!step && i < n - 1) continue; // overwritten by the following frame
						for (int c = 0; c < channels; ++c)
							MC_CHECK(value_ok<T>(bits, le(data, ((pos + i) * channels + c) * bits / 8, bits / 8), p[step * i + c]), "frame %d channel %d reads as %.9g", pos + i, c, (double)p[step * i + c]);
					}
				} else if (n) {
					MC_CHECK(!r.good(), "still good after reading past the end");
					break;
				}
				pos += n;
			}
			mc::step();
			++mc::res.states;
		}
		++mc::res.traces;
		++mc::res.evals;
		mc::outcome(mc::mix(std::hash<std::string>()(what), pos));
	});
	mc::describe = nullptr;
}
// every code decodes to its value and encodes to itself; fine grid of values
template <class T>
void codes(int bits)
{
	trace();
	const int n = 1 << bits, bytes = bits / 8;
	Bytes data;
	for (int i = 0; i < n; ++i) add(data, i, bytes);
	File file("c.wav");
	file.put(wav_file(bits, 1, 48000, data));
	std::vector<T> buf(n);
	what = str("all %d-bit codes", bits);
	DSP::ReadWAV<T> r(file.name.c_str());
	r.read(buf.data(), n);
	MC_CHECK(r.good(), "reading all codes");
	for (int i = 0; i < n; ++i) { MC_CHECK(value_ok<T>(bits, i, buf[i]), "code %d reads as %.9g", i, (double)buf[i]); mc::outcome(mc::bits(buf[i])); mc::step(); ++mc::res.evals; }
	const std::string name = mc::scratch_file("d.wav");
	{ DSP::WriteWAV<T> w(name.c_str(), 48000, bits, 1); w.write(buf.data(), n); }
	Wav w = parse(slurp(name));
	MC_CHECK(w.data == data, "codes change when written back");
	// values in steps of a quarter code beyond both ends
	const double fac = bits == 8 ? 127 : 32767;
	const int m = 1.2 * fac * 8;
	std::vector<T> grid;
	for (int i = -m; i <= m; ++i) grid.push_back(T(i / (8 * fac)));
	for (double x : {2., -2., 100., -100., 1e30, -1e30}) grid.push_back(T(x));
	{ DSP::WriteWAV<T> q(name.c_str(), 48000, bits, 1); q.write(grid.data(), grid.size()); }
	w = parse(slurp(name));
	MC_CHECK(w.data.size() == grid.size() * bytes, "number of samples");
	for (size_t i = 0; i < grid.size(); ++i) {
		int raw = le(w.data, i * bytes, bytes), code = bits == 8 ? raw : (int16_t)raw;
		MC_CHECK(code_ok(bits, grid[i], code), "value %.9g (%.4f codes) is stored as %d", (double)grid[i], (double)grid[i] * fac, code);
		++mc::res.evals;
	}
	++mc::res.traces;
	mc::describe = nullptr;
}
// float files keep every bit pattern of a dense selection, signed zeros, subnormals, infinities and NaNs included
static void patterns()
{
	trace();
	std::vector<float> v;
	std::vector<uint32_t> bits;
	for (uint32_t e = 0; e < 512; ++e) for (uint32_t m = 0; m < 23; ++m) for (int k = 0; k < 3; ++k) {
		uint32_t b = e << 23 | (k == 0 ? 0 : k == 1 ? 1u << m : (1u << m) - 1);
		float f;
		memcpy(&f, &b, 4);
		v.push_back(f);
		bits.push_back(b);
	}
	const std::string name = mc::scratch_file("p.wav");
	what = "float bit patterns";
	{ DSP::WriteWAV<float> w(name.c_str(), 8000, 32, 1); w.write(v.data(), v.size()); }
	Wav w = parse(slurp(name));
	MC_CHECK(w.bits == 32 && w.data.size() == 4 * v.size() && (!w.has_fact || w.fact == v.size()), "size of the file");
	std::vector<float> got(v.size());
	DSP::ReadWAV<float> r(name.c_str());
	r.read(got.data(), got.size());
	MC_CHECK(r.good(), "reading back");
	for (size_t i = 0; i < v.size(); ++i) {
		uint32_t b;
		memcpy(&b, &got[i], 4);
		MC_CHECK(le(w.data, 4 * i, 4) == bits[i] && b == bits[i], "%08x is stored as %08x and reads as %08x", bits[i], le(w.data, 4 * i, 4), b);
		mc::step();
		++mc::res.evals;
		mc::outcome(bits[i]);
	}
	++mc::res.traces;
	mc::describe = nullptr;
}
// headers for all channel counts and many rates, block lengths around the stream's buffer
template <class T>
void headers(int bits)
{
	trace();
	const std::string name = mc::scratch_file("h.wav");
	const int stored = bits == 8 || bits == 16 ? bits : 32;
	auto one = [&](int rate, int channels, int frames, int block) {
		what = str("rate %d, %d bits, %d channels, %d frames in blocks of %d", rate, bits, channels, frames, block);
		std::vector<T> v(frames * channels);
		for (size_t i = 0; i < v.size(); ++i) v[i] = T((int)(i * 37 % 255) - 127) / T(127);
		{
			// through the interface, as applications do
			DSP::WritePCM<T> *w = new DSP::WriteWAV<T>(name.c_str(), rate, bits, channels);
			for (int i = 0; i < frames; i += block) w->write(v.data() + i * channels, min(block, frames - i));
			MC_CHECK(w->good() && w->rate() == rate && w->channels() == channels, "writer not good");
			delete w;
		}
		Wav w = parse(slurp(name));
		compare<T>(w, stored, channels, rate, v, std::vector<char>(v.size(), 0));
		DSP::ReadWAV<T> r(name.c_str());
		MC_CHECK(r.good() && r.rate() == rate && r.channels() == channels && r.bits() == stored && r.frames() == frames, "reader reports rate %d, %d channels, %d bits, %d frames", r.rate(), r.channels(), r.bits(), r.frames());
		std::vector<T> b(v.size());
		DSP::ReadPCM<T> *rp = &r;
		for (int i = 0; i < frames; i += block + 1) rp->read(b.data() + i * channels, min(block + 1, frames - i));
		MC_CHECK(rp->good() && rp->rate() == rate && rp->channels() == channels && rp->frames() == frames, "not good within the file");
		for (size_t i = 0; i < b.size(); ++i) MC_CHECK(value_ok<T>(stored, le(w.data, i * stored / 8, stored / 8), b[i]), "sample %zu reads as %.9g", i, (double)b[i]);
		// skip to the last frame
		DSP::ReadPCM<T> *sp = new DSP::ReadWAV<T>(name.c_str());
		sp->skip(frames - 1);
		sp->read(b.data(), 1);
		MC_CHECK(sp->good(), "not good after skipping");
		delete sp;
		for (int c = 0; c < channels; ++c) MC_CHECK(value_ok<T>(stored, le(w.data, ((frames - 1) * channels + c) * stored / 8, stored / 8), b[c]), "last frame after skipping");
		mc::step();
		++mc::res.evals;
		++mc::res.traces;
		mc::outcome(std::hash<std::string>()(what));
	};
	for (int c = 1; c <= 64; ++c) one(44100, c, 2, 1);
	for (int c : {127, 128, 255, 256, 1000, 8000}) one(8000, c, 2, 1);
	for (int r : {1, 2, 100, 255, 256, 8000, 11025, 22050, 44100, 48000, 65535, 65536, 96000, 192000, 384000, 1000000, 16777215, 16777216, 33554431}) for (int c : {1, 2}) one(r, c, 3, 2);
	for (int n : {127, 128, 255, 256, 2046, 2047, 2048, 2049, 4095, 4096, 8190, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 70000}) for (int block : {1, 1000, 70000}) one(48000, 1, n, block);
	if (!mc::san) for (int d : {-1, 0, 1}) one(48000, 1, (1 << 24) / (stored / 8) + d, 1 << 20); // sizes of more than three bytes
	mc::describe = nullptr;
}

// long silences and wide strides
template <class T>
void extents(int bits)
{
	trace();
	const std::string name = mc::scratch_file("e.wav");
	for (int channels : {1, 2, 3}) for (int n : {1, 127, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 100000, 300000}) {
		what = str("%d bits, %d channels, a frame, %d frames of silence, a frame", bits, channels, n);
		std::vector<T> v((n + 2) * channels, T(0));
		std::vector<char> silent(v.size(), 1);
		for (int c = 0; c < channels; ++c) for (size_t i : {(size_t)c, v.size() - channels + c}) { v[i] = T(c + 1) / T(4); silent[i] = 0; }
		{
			DSP::WriteWAV<T> w(name.c_str(), 8000, bits, channels);
			w.write(v.data(), 1);
			w.silence(n);
			w.write(v.data() + v.size() - channels, 1);
			MC_CHECK(w.good(), "writer not good");
		}
		compare<T>(parse(slurp(name)), bits, channels, 8000, v, silent);
		DSP::ReadWAV<T> r(name.c_str());
		MC_CHECK(r.good() && r.frames() == n + 2, "reader reports %d frames", r.frames());
		mc::step();
		++mc::res.evals;
		++mc::res.traces;
		mc::outcome(std::hash<std::string>()(what));
	}
	for (int channels : {1, 2}) for (int stride : {10, 255, 256, 32767, 32768, 65535, 65536, 100000}) {
		what = str("%d bits, %d channels, stride %d", bits, channels, stride);
		const int frames = 4;
		std::vector<T> v(frames * channels), in((frames - 1) * stride + channels, T(0.77)), out(in.size(), T(-77));
		for (int i = 0; i < frames; ++i) for (int c = 0; c < channels; ++c) in[i * stride + c] = v[i * channels + c] = T(i * channels + c - 3) / T(8);
		{ DSP::WriteWAV<T> w(name.c_str(), 8000, bits, channels); w.write(in.data(), frames, stride); }
		Wav w = parse(slurp(name));
		compare<T>(w, bits, channels, 8000, v, std::vector<char>(v.size(), 0));
		DSP::ReadWAV<T> r(name.c_str());
		r.read(out.data(), frames, stride);
		MC_CHECK(r.good(), "not good within the file");
		for (size_t i = 0; i < out.size(); ++i) {
			int n = i / stride, c = i % stride;
			if (c < channels) MC_CHECK(value_ok<T>(bits, le(w.data, (n * channels + c) * bits / 8, bits / 8), out[i]), "sample %d of frame %d reads as %.9g", c, n, (double)out[i]);
			else MC_CHECK(out[i] == T(-77), "element %zu outside of the request was changed", i);
		}
		mc::step();
		++mc::res.evals;
		++mc::res.traces;
		mc::outcome(std::hash<std::string>()(what));
	}
	mc::describe = nullptr;
}
// a reader that knows no better reports the number of frames as unknown
struct Endless : DSP::ReadPCM<float> { void read(float *b, int n, int = -1) { while (n--) *b++ = 0; } bool good() { return true; } void skip(int) {} int rate() { return 1; } int channels() { return 1; } }; // exotic
void endless() { Endless e; DSP::ReadPCM<float> *r = &e; MC_CHECK(r->frames() == -1, "%d frames by default", r->frames()); mc::step(); ++mc::res.evals; ++mc::res.traces; } // exotic

void register_scenarios()
{
	using mc::scenario;
	for (int bits : {8, 16, 32, 24, 12, 0, 64}) for (int channels : {1, 2, 3}) {
		const bool odd = bits != 8 && bits != 16 && bits != 32;
		const int depth = odd ? 1 : channels == 3 ? mc::pick(1, 4, 5) : mc::pick(2, 5, 6);
		scenario(str("write sequences %d bits %d channels float", bits, channels), [=]() { write_sequences<float>(bits, channels, 8000, depth); });
		scenario(str("write sequences %d bits %d channels double", bits, channels), [=]() { write_sequences<double>(bits, channels, 44100, odd ? 1 : mc::pick(1, 3, 4)); });
	}
	for (int bits : {8, 16, 32}) for (int channels : {1, 2, 3}) {
		scenario(str("read sequences %d bits %d channels float", bits, channels), [=]() { read_sequences<float>(bits, channels, 5, mc::pick(3, 6, 7)); });
		scenario(str("read sequences %d bits %d channels double", bits, channels), [=]() { read_sequences<double>(bits, channels, 4, mc::pick(2, 4, 5)); });
	}
	for (int bits : {8, 16}) {
		scenario(str("codes %d bits float", bits), [=]() { codes<float>(bits); });
		scenario(str("codes %d bits double", bits), [=]() { codes<double>(bits); });
	}
	scenario("float bit patterns", patterns);
	for (int bits : {8, 16, 32, 20}) scenario(str("headers %d bits", bits), [=]() { headers<float>(bits); });
	for (int bits : {8, 16, 32}) {
		scenario(str("extents %d bits float", bits), [=]() { extents<float>(bits); });
		scenario(str("extents %d bits double", bits), [=]() { extents<double>(bits); });
	}
	scenario("frames by default", endless); // exotic
	scenario("headers 16 bits double", []() { headers<double>(16); });
}
