// Files of the checks on file formats; everything lives in the scratch directory of the run
#pragma once
#include "mc.hh"
#include <fcntl.h>
#include <sys/stat.h>

typedef std::vector<unsigned char> Bytes;

inline Bytes slurp(const std::string &name)
{
	Bytes b;
	int fd = open(name.c_str(), O_RDONLY);
	if (fd < 0) return b;
	struct stat st;
	fstat(fd, &st);
	b.resize(st.st_size);
	size_t n = 0;
	while (n < b.size()) {
		ssize_t r = read(fd, b.data() + n, b.size() - n);
		if (r <= 0) break;
		n += r;
	}
	b.resize(n);
	close(fd);
	return b;
}
inline std::string hex(const Bytes &b, size_t top = 80)
{
	std::string s;
	for (size_t i = 0; i < b.size() && i < top; ++i) s += mc::str("%02x", b[i]);
	if (b.size() > top) s += mc::str("... (%zu bytes)", b.size());
	return s;
}
// the file under test; rewritten in place without truncating to zero first where the length stays the same
struct File
{
	std::string name;
	int fd = -1;
	size_t len = 0;
	File(const char *n) : name(mc::scratch_file(n)) { fd = open(name.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) _exit(3); }
	~File() { close(fd); }
	void put(const Bytes &b)
	{
		if (len != b.size() && ftruncate(fd, b.size())) _exit(3);
		len = b.size();
		if (len && pwrite(fd, b.data(), len, 0) != (ssize_t)len) _exit(3);
	}
};
inline unsigned le(const Bytes &b, size_t at, int n)
{
	unsigned v = 0;
	for (int i = 0; i < n; ++i) if (at + i < b.size()) v |= (unsigned)b[at + i] << (8 * i);
	return v;
}
inline void put_le(Bytes &b, size_t at, unsigned v, int n) { for (int i = 0; i < n; ++i) b[at + i] = v >> (8 * i); }
inline void add(Bytes &b, const char *s) { while (*s) b.push_back(*s++); }
inline void add(Bytes &b, unsigned v, int n) { for (int i = 0; i < n; ++i) b.push_back(v >> (8 * i)); }

// a canonical WAV file
inline Bytes wav_file(int bits, int channels, unsigned rate, const Bytes &data, bool sizes = true)
{
	Bytes b;
	const int bytes = bits / 8, over = bits == 32 ? 58 : 44;
	add(b, "RIFF");
	add(b, sizes ? data.size() + over - 8 : over - 8, 4);
	add(b, "WAVEfmt ");
	add(b, bits == 32 ? 18 : 16, 4);
	add(b, bits == 32 ? 3 : 1, 2);
	add(b, channels, 2);
	add(b, rate, 4);
	add(b, rate * channels * bytes, 4);
	add(b, channels * bytes, 2);
	add(b, bits, 2);
	if (bits == 32) {
		add(b, 0, 2);
		add(b, "fact");
		add(b, 4, 4);
		add(b, sizes ? data.size() / (bytes * channels) : 0, 4);
	}
	add(b, "data");
	add(b, sizes ? data.size() : ~0u, 4);
	b.insert(b.end(), data.begin(), data.end());
	return b;
}
