// C21: every point at which a WAV recording can stop
#include "files.hh"
#include "wav.hh"
#include <sys/syscall.h>
#include <sys/uio.h>

using mc::str;

// log of everything that reaches the file, in order; the calls of the C++ library end up here
static struct stat target;
static bool logging;
struct Event { long at; Bytes data; };
static std::vector<Event> events;
static void record(int fd, const void *p, long n)
{
	struct stat st;
	if (!logging || n <= 0 || fstat(fd, &st) || st.st_dev != target.st_dev || st.st_ino != target.st_ino) return;
	long end = syscall(SYS_lseek, fd, 0L, SEEK_CUR);
	events.push_back({end - n, Bytes((const unsigned char *)p, (const unsigned char *)p + n)});
}
extern "C" ssize_t write(int fd, const void *p, size_t n)
{
	ssize_t r = syscall(SYS_write, fd, p, n);
	record(fd, p, r);
	return r;
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n)
{
	ssize_t total = 0;
	for (int i = 0; i < n; ++i) {
		ssize_t r = syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return total ? total : r;
		record(fd, v[i].iov_base, r);
		total += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return total;
}

static std::string what;
static void trace() { mc::describe = []() { return what; }; }

struct Setup { int bits, channels, rate; std::vector<int> blocks; }; // negative blocks are silence
template <class T> T value(int i) { return T((i * 37 + 11) % 255 - 127) / T(127); }

// what a reader makes of the file as it is now; the whole and complete recording is known
template <class T>
void inspect(const std::string &name, const Setup &s, const Bytes &whole, size_t header, size_t length, bool closed)
{
	const int block = s.bits / 8 * s.channels, total = (whole.size() - header) / block;
	DSP::ReadWAV<T> r(name.c_str());
	mc::step();
	++mc::res.evals;
	if (length < header) {
		MC_CHECK(!r.good(), "good with %zu of %zu header bytes", length, header);
		mc::outcome(1);
		return;
	}
	const int complete = (length - header) / block;
	MC_CHECK(r.good(), "not readable with %d complete frames in the file", complete);
	MC_CHECK(r.bits() == s.bits && r.channels() == s.channels && r.rate() == s.rate, "reports %d bits, %d channels, rate %d", r.bits(), r.channels(), r.rate());
	MC_CHECK(r.frames() == -1 || (r.frames() == total && complete == total), "reports %d frames with %d complete ones in the file and %d recorded", r.frames(), complete, total);
	if (closed) MC_CHECK(total == 0 || r.frames() == total, "reports %d frames after closing", r.frames());
	std::vector<T> buf(complete * s.channels + 1);
	r.read(buf.data(), complete);
	MC_CHECK(r.good(), "not good while reading %d complete frames", complete);
	for (int i = 0; i < complete * s.channels; ++i) {
		T want;
		const size_t at = header + (size_t)i * (s.bits / 8);
		if (s.bits == 32) { uint32_t b = le(whole, at, 4); float f; memcpy(&f, &b, 4); want = f; }
		else if (s.bits == 16) want = T((int16_t)le(whole, at, 2)) / T(32767);
		else want = T((int)whole[at] - 128) / T(127);
		double d = (double)buf[i] - (double)want;
		MC_CHECK(d <= 1e-6 && d >= -1e-6, "sample %d of %d complete frames reads as %.9g instead of %.9g", i, complete, (double)buf[i], (double)want);
	}
	mc::outcome(mc::mix(mc::mix(r.frames(), complete), s.bits * 16 + s.channels));
}

template <class T>
void run(const Setup &s)
{
	trace();
	const std::string name = mc::scratch_file("rec.wav"), copy = mc::scratch_file("img.wav");
	std::string setup = str("%d bits, %d channels, rate %d, blocks", s.bits, s.channels, s.rate);
	for (int b : s.blocks) setup += str(" %d", b);
	what = setup;
	{ int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); fstat(fd, &target); close(fd); }
	events.clear();
	std::vector<Bytes> snaps; // as seen by others between the calls
	logging = true;
	{
		DSP::WriteWAV<T> w(name.c_str(), s.rate, s.bits, s.channels);
		snaps.push_back(slurp(name));
		int n = 0;
		for (int b : s.blocks) {
			if (b < 0) w.silence(-b);
			else {
				std::vector<T> v(b * s.channels);
				for (auto &x : v) x = value<T>(n++);
				w.write(v.data(), b);
			}
			snaps.push_back(slurp(name));
		}
	}
	logging = false;
	Bytes whole = slurp(name);
	// position of the data chunk
	size_t header = 12;
	while (header + 8 <= whole.size() && memcmp(whole.data() + header, "data", 4)) header += 8 + le(whole, header + 4, 4);
	header += 8;
	int frames = 0;
	for (int b : s.blocks) frames += b < 0 ? -b : b;
	MC_CHECK(header <= whole.size() && whole.size() - header == (size_t)frames * s.channels * s.bits / 8, "finished file of %zu bytes", whole.size());
	File img("img.wav");
	for (size_t i = 0; i < snaps.size(); ++i) {
		what = setup + str("; stopped after call %zu", i);
		img.put(snaps[i]);
		inspect<T>(copy, s, whole, header, snaps[i].size(), false);
	}
	// the file rebuilt from the log has to be the file on disk, otherwise the log misses something
	Bytes now;
	for (auto &e : events) {
		if (now.size() < e.at + e.data.size()) now.resize(e.at + e.data.size());
		std::copy(e.data.begin(), e.data.end(), now.begin() + e.at);
	}
	if (now != whole) {
		mc::note(str("%s: the write log does not rebuild the file, only stops between calls were explored", mc::cur_name.c_str()));
		mc::res.exhaustive = false;
	} else {
		// stop after every single byte that reaches the file
		img.put(Bytes());
		size_t length = 0;
		what = setup + "; stopped before the first byte";
		inspect<T>(copy, s, whole, header, 0, false);
		for (size_t k = 0; k < events.size(); ++k) for (size_t j = 0; j < events[k].data.size(); ++j) {
			long at = events[k].at + j;
			if (pwrite(img.fd, &events[k].data[j], 1, at) != 1) _exit(3);
			length = max(length, (size_t)at + 1);
			// long recordings: every byte of the first and last kilobyte of each write and of everything that overwrites, every 61st elsewhere
			bool over = (size_t)at + 1 < length, edge = j < 1024 || j + 1024 > events[k].data.size();
			if (whole.size() > 4000 && !over && !edge && at % 61) { mc::res.exhaustive = false; continue; }
			what = setup + str("; stopped after byte %zu of %zu of write %zu of %zu, file offset %ld", j + 1, events[k].data.size(), k + 1, events.size(), at);
			inspect<T>(copy, s, whole, header, length, k + 1 == events.size() && j + 1 == events[k].data.size());
		}
		mc::sample(setup + str(": %zu writes", events.size()));
	}
	what = setup + "; closed";
	inspect<T>(name, s, whole, header, whole.size(), true);
	++mc::res.traces;
	mc::describe = nullptr;
}

void register_scenarios()
{
	static const std::vector<std::vector<int>> shorts = {{}, {1}, {2}, {-1}, {5}, {1, 1}, {3, -2, 1}, {100}, {7, 0, 9, -30, 20}, {257}};
	for (int bits : {8, 16, 32}) for (int channels : {1, 2, 3}) {
		for (size_t k = 0; k < shorts.size(); ++k) mc::scenario(str("%d bits, %d channels, short %zu", bits, channels, k), [=]() { run<float>({bits, channels, 44100, shorts[k]}); if (!mc::san) run<double>({bits, channels, 8000, shorts[k]}); });
		// several buffers of the stream, in one block and in many
		const int n = 20000 / (channels * bits / 8);
		mc::scenario(str("%d bits, %d channels, long", bits, channels), [=]() { run<float>({bits, channels, 48000, {mc::san ? n / 2 : n}}); });
		mc::scenario(str("%d bits, %d channels, long in blocks", bits, channels), [=]() { run<float>({bits, channels, 48000, std::vector<int>(10, mc::san ? n / 20 : n / 10)}); });
		mc::scenario(str("%d bits, %d channels, long silence", bits, channels), [=]() { run<float>({bits, channels, 48000, {10, -(mc::san ? n / 2 : n), 10}}); });
		if (mc::thorough()) mc::scenario(str("%d bits, %d channels, very long", bits, channels), [=]() { run<float>({bits, channels, 48000, std::vector<int>(100, n / 30)}); });
	}
	// sizes whose bytes look like the marks of an unknown size, and sizes crossing a power of 256
	for (int frames : {84, 92, 212, 220, 255 - 44, 256, 65535 - 36, 65536 - 36, 65536 - 44, 65536 + 200}) mc::scenario(str("8 bits, mono, %d frames", frames), [=]() { if (!mc::san || frames < 1000) run<float>({8, 1, 8000, {frames}}); });
	for (int rate : {1, 96000, 192000, 16777215}) mc::scenario(str("rate %d", rate), [=]() { run<float>({16, 2, rate, {3}}); run<float>({32, 2, rate, {3}}); });
}
