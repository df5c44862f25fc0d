// C42: storage that fails while a file is written or read
#include "files.hh"
#include "wav.hh"
#include "netpbm.hh"
#include <cerrno>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>

using mc::str;

// ---------------------------------------------------------------- the failing device: calls of the C++ library on the target file end up here

enum Mode { NONE, FULL, FROM, ONCE, SHORT, BYTES, INTR };
static const char *modes[] = {"no fault", "full after byte", "failing from call", "failing at call", "partial at call", "single bytes", "interrupted at call"};
static struct stat target;
static bool armed;
static Mode mode;
static long where, calls, faults, moved;

static bool mine(int fd)
{
	struct stat st;
	return armed && !fstat(fd, &st) && st.st_dev == target.st_dev && st.st_ino == target.st_ino;
}
static void arm(const std::string &name, Mode m, long w)
{
	int fd = open(name.c_str(), O_RDWR | O_CREAT, 0600);
	if (fd < 0 || fstat(fd, &target)) _exit(3);
	close(fd);
	mode = m; where = w; calls = faults = moved = 0;
	armed = true;
}
// how many of the n bytes at this offset may pass, negative for an error
static long pass(long at, long n, bool out)
{
	const long c = calls++;
	if (n <= 0) return n;
	switch (mode) {
	case FULL:
		if (!out) break;
		if (at >= where) { ++faults; errno = ENOSPC; return -1; }
		return min(n, where - at);
	case FROM:
		if (c >= where) { ++faults; errno = EIO; return -1; }
		break;
	case ONCE:
		if (c == where) { ++faults; errno = EIO; return -1; }
		break;
	case SHORT:
		if (c == where) return (n + 1) / 2;
		break;
	case BYTES: return 1;
	case INTR:
		if (c == where) { errno = EINTR; return -1; }
		break;
	case NONE: break;
	}
	return n;
}
extern "C" ssize_t write(int fd, const void *p, size_t n)
{
	if (mine(fd)) {
		long k = pass(syscall(SYS_lseek, fd, 0L, SEEK_CUR), n, true);
		if (k < 0) return k;
		n = k;
	}
	ssize_t r = syscall(SYS_write, fd, p, n);
	if (r > 0 && armed) moved += r;
	return r;
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n)
{
	ssize_t total = 0;
	for (int i = 0; i < n; ++i) {
		ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return total ? total : r;
		total += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return total;
}
extern "C" ssize_t read(int fd, void *p, size_t n)
{
	if (mine(fd)) {
		long k = pass(syscall(SYS_lseek, fd, 0L, SEEK_CUR), n, false);
		if (k < 0) return k;
		n = k;
	}
	ssize_t r = syscall(SYS_read, fd, p, n);
	if (r > 0 && armed) moved += r;
	return r;
}

static std::string what;
static void trace() { mc::describe = []() { return what; }; }
template <class T> T value(int i) { return T((i * 37 + 11) % 255 - 127) / T(127); }

// ---------------------------------------------------------------- both kinds of files behind one face

struct Setup { bool wav; int bits, channels, rate; std::vector<int> blocks; };
static std::string show(const Setup &s)
{
	std::string d = s.wav ? str("WAV, %d bits, %d channels, blocks", s.bits, s.channels) : str("PNM, %d bits, %d channels, blocks", s.bits, s.channels);
	for (int b : s.blocks) d += str(" %d", b);
	return d;
}
static int frames(const Setup &s) { int n = 0; for (int b : s.blocks) n += std::abs(b); return n; }

template <class T> struct Writer
{
	DSP::WritePCM<T> *pcm = nullptr;
	DSP::WritePEL<T> *pel = nullptr;
	Writer(const Setup &s, const std::string &name)
	{
		if (s.wav) pcm = new DSP::WriteWAV<T>(name.c_str(), s.rate, s.bits, s.channels);
		else pel = new DSP::WritePNM<T>(name.c_str(), frames(s), 1, s.channels == 1, s.bits == 8 ? 255 : 65535);
	}
	bool good() { return pcm ? pcm->good() : pel->good(); }
	void block(const Setup &s, int b, int &n)
	{
		if (b < 0 && pcm) { pcm->silence(-b); return; }
		b = std::abs(b);
		std::vector<T> v(b * s.channels + 1);
		for (int i = 0; i < b * s.channels; ++i) v[i] = pcm ? value<T>(n++) : (value<T>(n++) + 1) / 2;
		if (pcm) pcm->write(v.data(), b); else pel->write(v.data(), b);
	}
	~Writer() { delete pcm; delete pel; }
};
template <class T> struct Reader
{
	DSP::ReadPCM<T> *pcm = nullptr;
	DSP::ReadPEL<T> *pel = nullptr;
	Reader(const Setup &s, const std::string &name)
	{
		if (s.wav) pcm = new DSP::ReadWAV<T>(name.c_str());
		else pel = new DSP::ReadPNM<T>(name.c_str());
	}
	bool good() { return pcm ? pcm->good() : pel->good(); }
	void read(T *p, int n) { if (pcm) pcm->read(p, n); else pel->read(p, n); }
	~Reader() { delete pcm; delete pel; }
};

static size_t header_of(const Setup &s, const Bytes &whole)
{
	const size_t data = (size_t)frames(s) * s.channels * (s.bits / 8);
	return whole.size() - data;
}
template <class T> void differs(const char *kind, const std::vector<T> &got, const std::vector<T> &want, size_t n)
{
	for (size_t i = 0; i < n; ++i) {
		double d = (double)got[i] - (double)want[i];
		MC_CHECK(d <= 1e-6 && d >= -1e-6, "%s: sample %zu reads as %.9g instead of %.9g", kind, i, (double)got[i], (double)want[i]);
	}
}

// the file once nothing is in the way of it
template <class T> Bytes intact(const Setup &s, const std::string &name, std::vector<T> &samples)
{
	armed = false;
	what = show(s) + ", no fault";
	{
		Writer<T> w(s, name);
		int n = 0;
		for (int b : s.blocks) { w.block(s, b, n); MC_CHECK(w.good(), "not good without a fault"); }
	}
	Bytes whole = slurp(name);
	samples.assign((size_t)frames(s) * s.channels + 1, 0);
	Reader<T> r(s, name);
	r.read(samples.data(), frames(s));
	MC_CHECK(r.good(), "not readable without a fault");
	return whole;
}

// one recording with one fault, watched after every call
template <class T> long record(const Setup &s, const std::string &name, const Bytes &whole, const std::vector<T> &samples, Mode m, long w)
{
	what = show(s) + str(", %s %ld", modes[m], w);
	unlink(name.c_str());
	arm(name, m, w);
	bool was = true;
	long seen = 0; // faults before closing
	{
		Writer<T> o(s, name);
		int n = 0;
		for (int i = -1; i < (int)s.blocks.size(); ++i) {
			if (i >= 0) o.block(s, s.blocks[i], n);
			const bool good = o.good();
			mc::step();
			if (!faults) MC_CHECK(good, "not good after call %d although nothing failed", i + 1);
			if (faults && (m == FULL || m == FROM)) MC_CHECK(!good, "good after call %d although %ld of %ld writes failed", i + 1, faults, calls);
			if (!was) MC_CHECK(!good, "turned good again at call %d", i + 1);
			was = good;
		}
		seen = faults;
	}
	armed = false;
	Bytes file = slurp(name);
	const size_t header = header_of(s, whole);
	const bool transparent = m == NONE || m == SHORT || m == BYTES || m == INTR || !faults;
	if (transparent) MC_CHECK(file == whole, "the file differs although nothing was lost");
	if (seen && was) MC_CHECK(file == whole, "the writer stayed good but the file differs");
	if (file.size() >= header) {
		// whatever reached the file can be read
		const int block = s.bits / 8 * s.channels, complete = (file.size() - header) / block;
		MC_CHECK(complete <= frames(s), "the file holds %d frames, %d were written", complete, frames(s));
		if (s.wav) {
			DSP::ReadWAV<T> r(name.c_str());
			MC_CHECK(r.good(), "not readable with %d complete frames in the file", complete);
			MC_CHECK(r.bits() == s.bits && r.channels() == s.channels && r.rate() == s.rate, "reports %d bits, %d channels, rate %d", r.bits(), r.channels(), r.rate());
			MC_CHECK(r.frames() == -1 || r.frames() == complete, "reports %d frames, the file holds %d", r.frames(), complete);
			std::vector<T> buf(complete * s.channels + 1);
			r.read(buf.data(), complete);
			MC_CHECK(r.good(), "not good while reading %d complete frames", complete);
			differs("reading what was stored", buf, samples, complete * s.channels);
			mc::outcome(mc::mix(mc::mix(r.frames(), complete), mc::mix(m, was)));
		} else {
			MC_CHECK(!file.empty() && std::equal(file.begin(), file.end(), whole.begin()), "the stored part differs");
			mc::outcome(mc::mix(file.size(), mc::mix(m, was)));
		}
	} else {
		Reader<T> r(s, name);
		MC_CHECK(!r.good(), "good with %zu of %zu header bytes", file.size(), header);
		mc::outcome(mc::mix(file.size(), mc::mix(m, was)));
	}
	mc::step();
	++mc::res.evals;
	++mc::res.traces;
	return calls;
}
template <class T> void writing(const Setup &s)
{
	trace();
	const std::string name = mc::scratch_file("out");
	std::vector<T> samples;
	Bytes whole = intact(s, name, samples);
	long n = record<T>(s, name, whole, samples, NONE, 0);
	if (n == 0) {
		mc::note(str("%s: the writes of the library could not be observed, no faults were injected", mc::cur_name.c_str()));
		mc::res.exhaustive = false;
	}
	record<T>(s, name, whole, samples, BYTES, 0);
	for (Mode m : {FROM, ONCE, SHORT, INTR})
		for (long c = 0; c < n; ++c) record<T>(s, name, whole, samples, m, c);
	for (long k = 0; k <= (long)whole.size(); ++k) record<T>(s, name, whole, samples, FULL, k);
	mc::sample(str("%s: %ld calls, %zu bytes, each of them failing", show(s).c_str(), n, whole.size()));
	mc::describe = nullptr;
}

// one reading with one fault; what was delivered while good is right, and a fault before the end does not go unnoticed
template <class T> long replay(const Setup &s, const std::string &name, const std::vector<T> &samples, Mode m, long w, const std::vector<int> &sizes)
{
	what = show(s) + str(", reading %s %ld, blocks of", modes[m], w);
	for (int z : sizes) what += str(" %d", z);
	arm(name, m, w);
	{
		Reader<T> r(s, name);
		bool was = true;
		int at = 0;
		for (int k = -1; at < frames(s) || k < 0; ++k) {
			std::vector<T> buf;
			int num = 0;
			if (k >= 0) {
				num = min(sizes[k % sizes.size()], frames(s) - at);
				buf.assign(num * s.channels + 1, T(0));
				if (r.good() || s.wav) r.read(buf.data(), num);
			}
			const bool good = r.good();
			mc::step();
			if (!faults) MC_CHECK(good, "not good after %d of %d frames although nothing failed", at + num, frames(s));
			if (!was) MC_CHECK(!good, "turned good again after %d frames", at + num);
			if (good) {
				std::vector<T> want(samples.begin() + at * s.channels, samples.begin() + (at + num) * s.channels + 1);
				differs("while good", buf, want, num * s.channels);
			}
			was = good;
			at += num;
		}
		if (faults && (m == FROM)) MC_CHECK(!was, "good at the end although %ld of %ld calls failed", faults, calls);
		mc::outcome(mc::mix(mc::mix(m, was), mc::mix(calls, faults)));
	}
	armed = false;
	++mc::res.evals;
	++mc::res.traces;
	return calls;
}
template <class T> void reading(const Setup &s)
{
	trace();
	const std::string name = mc::scratch_file("out");
	std::vector<T> samples;
	intact(s, name, samples);
	for (auto sizes : std::vector<std::vector<int>>{{1}, {7}, {1000000}, {1, 100, 3}}) {
		if (sizes[0] == 1 && sizes.size() == 1 && frames(s) > 20000) continue;
		long n = replay<T>(s, name, samples, NONE, 0, sizes);
		if (n == 0) {
			mc::note(str("%s: the reads of the library could not be observed, no faults were injected", mc::cur_name.c_str()));
			mc::res.exhaustive = false;
		}
		if (frames(s) < 20000) replay<T>(s, name, samples, BYTES, 0, sizes);
		for (Mode m : {FROM, ONCE, SHORT, INTR})
			for (long c = 0; c < n; ++c) replay<T>(s, name, samples, m, c, sizes);
		mc::sample(str("%s: reading with %ld calls, each of them failing", show(s).c_str(), n));
	}
	mc::describe = nullptr;
}

// the limit the system itself puts on the length of a file; far behind it the loss has to have shown
template <class T> void limited(const Setup &s)
{
	trace();
	signal(SIGXFSZ, SIG_IGN);
	const std::string name = mc::scratch_file("out");
	struct rlimit old;
	getrlimit(RLIMIT_FSIZE, &old);
	for (long k = 0; k < 20000; k = k < 80 ? k + 1 : k * 5 / 4) {
		what = show(s) + str(", at most %ld bytes", k);
		unlink(name.c_str());
		struct rlimit lim = old;
		lim.rlim_cur = k;
		bool good = true, tried = true;
		if (setrlimit(RLIMIT_FSIZE, &lim)) tried = false;
		if (tried) {
			Writer<T> o(s, name);
			int n = 0;
			for (long sum = 0; sum < k + (1 << 20); ) for (int b : s.blocks) {
				o.block(s, b, n);
				sum += (long)std::abs(b) * s.channels * (s.bits / 8);
				const bool now = o.good();
				if (!good && now) { setrlimit(RLIMIT_FSIZE, &old); MC_FAIL("turned good again"); }
				good = now;
			}
		}
		setrlimit(RLIMIT_FSIZE, &old);
		if (!tried) { mc::note("no limit on the length of files"); mc::res.exhaustive = false; break; }
		MC_CHECK(!good, "good with more than a megabyte lost");
		Bytes file = slurp(name);
		MC_CHECK((long)file.size() <= k, "limit not effective");
		if (s.wav) {
			DSP::ReadWAV<T> r(name.c_str());
			if (r.good()) MC_CHECK(r.frames() == -1, "reports %d frames of a recording cut at byte %ld", r.frames(), k);
		}
		mc::step();
		++mc::res.evals; ++mc::res.traces;
		mc::outcome(mc::mix(k, file.size()));
	}
	mc::describe = nullptr;
}

// names nothing can be stored under
template <class T> void unopened()
{
	trace();
	const std::string base = mc::scratch_file("file");
	{ int fd = open(base.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); close(fd); }
	const std::string dir = base.substr(0, base.rfind('/'));
	for (std::string name : {std::string(""), dir, dir + "/", dir + "/none/x", base + "/x", dir + "/" + std::string(300, 'n')})
		for (bool wav : {true, false}) for (int channels : {1, 3}) for (int bits : {8, 16}) {
			what = str("%s file of %d channels named \"%s\"", wav ? "WAV" : "PNM", channels, name.c_str());
			Setup s = {wav, bits, channels, 8000, {3, -2, 70000}};
			{
				Writer<T> o(s, name);
				MC_CHECK(!o.good(), "writer is good");
				int n = 0;
				for (int b : s.blocks) { o.block(s, b, n); MC_CHECK(!o.good(), "writer turned good"); mc::step(); }
			}
			Reader<T> r(s, name);
			MC_CHECK(!r.good(), "reader is good");
			std::vector<T> buf(100);
			r.read(buf.data(), 3);
			MC_CHECK(!r.good(), "reader turned good");
			mc::step();
			++mc::res.evals; ++mc::res.traces;
			mc::outcome(mc::mix(name.size(), channels * 2 + wav));
		}
	mc::describe = nullptr;
}

void register_scenarios()
{
	static const std::vector<std::vector<int>> shorts = {{1}, {3, -2, 1}, {100}, {7, 0, 9, -30, 20}};
	for (bool wav : {true, false}) for (int bits : {8, 16, 32}) for (int channels : {1, 2, 3}) {
		if (!wav && (bits == 32 || channels == 2)) continue;
		const std::string k = str("%s %d bits, %d channels", wav ? "WAV" : "PNM", bits, channels);
		const int n = 40000 / (channels * bits / 8);
		mc::scenario(k + ", short", [=]() { for (auto &b : shorts) { writing<float>({wav, bits, channels, 44100, b}); if (!mc::san) writing<double>({wav, bits, channels, 8000, b}); } });
		mc::scenario(k + ", long", [=]() { writing<float>({wav, bits, channels, 48000, {mc::san ? n / 4 : n}}); });
		mc::scenario(k + ", in blocks", [=]() { writing<float>({wav, bits, channels, 48000, {n / 20, -n / 10, n / 30, n / 7, -3, 5, n / 50}}); });
		mc::scenario(k + ", reading", [=]() { for (auto &b : shorts) reading<float>({wav, bits, channels, 44100, b}); reading<float>({wav, bits, channels, 48000, {n}}); reading<double>({wav, bits, channels, 48000, {2 * n}}); });
		mc::scenario(k + ", limited", [=]() { limited<float>({wav, bits, channels, 48000, {1000, -100}}); });
	}
	mc::scenario("unopened", []() { unopened<float>(); unopened<double>(); });
}
