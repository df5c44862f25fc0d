From ef9c4b87837defdc2aaf45aeb43120534b766137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:36 +0000
Subject: [PATCH 01/10] fix: start the moving maximum from the lowest value

For floating-point types numeric_limits::min() is the smallest positive value.
A first input equal to it was dropped from the window too early.
---
 movext.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movext.hh b/movext.hh
index ab9bf08..b66ffac 100644
--- a/movext.hh
+++ b/movext.hh
@@ -62,7 +62,7 @@ class MovMax
 {
 	MovExt<TYPE, std::equal_to<TYPE>, std::greater<TYPE>, NUM> movmax;
 public:
-	MovMax() : movmax(std::numeric_limits<TYPE>::min())
+	MovMax() : movmax(std::numeric_limits<TYPE>::lowest())
 	{
 	}
 	TYPE operator () (TYPE input)
-- 
2.43.0


From 97e03d8c8fa5059a82cd0cec24282b022b3e6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:36 +0000
Subject: [PATCH 02/10] fix: move all negative frequencies when zero padding

The first negative bin of an odd INPUT stayed in place.
An OUTPUT shorter than 1.5 times INPUT overwrote bins before moving them.
---
 fdzp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fdzp.hh b/fdzp.hh
index 09d71e4..5b8758a 100644
--- a/fdzp.hh
+++ b/fdzp.hh
@@ -23,14 +23,14 @@ public:
 	void operator ()(CMPLX *output, const CMPLX *input)
 	{
 		fwd(tmp, input);
+		for (int i = INPUT-1; i > INPUT/2; --i)
+			tmp[OUTPUT-INPUT+i] = tmp[i];
+		for (int i = INPUT/2+1; i < OUTPUT-INPUT/2; ++i)
+			tmp[i] = 0;
 		if (!(INPUT&1)) {
 			tmp[INPUT/2] *= VALUE(0.5);
 			tmp[OUTPUT-INPUT/2] = tmp[INPUT/2];
 		}
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[OUTPUT-INPUT+i] = tmp[i];
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[i] = 0;
 		bwd(output, tmp);
 		for (int i = 0; i < OUTPUT; ++i)
 			output[i] *= SCALE;
-- 
2.43.0


From db9a65686efdbbd45ef1aaf0d80167adb8247e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:36 +0000
Subject: [PATCH 03/10] fix: keep the sign of y in atan2 when y / x underflows

A tiny negative y with a large negative x gave Pi instead of -Pi.
---
 atan2.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atan2.hh b/atan2.hh
index a4d1ee1..df070a9 100644
--- a/atan2.hh
+++ b/atan2.hh
@@ -64,7 +64,7 @@ TYPE atan2(TYPE y, TYPE x)
 		return copysign(Const<TYPE>::HalfPi(), y);
 	TYPE phase = atan(y / x);
 	if (x < TYPE(0))
-		return phase > TYPE(0) ?
+		return y < TYPE(0) ?
 			phase - Const<TYPE>::Pi() :
 			phase + Const<TYPE>::Pi();
 	return phase;
-- 
2.43.0


From c46051f511bbec88024fd7ffe439dc6cd2998fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:36 +0000
Subject: [PATCH 04/10] fix: cover the whole exponent range of double in ldexp

Exponents of 256 and above shifted an int by more than its width.
---
 exp.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exp.hh b/exp.hh
index 6e822a4..3ac0a1b 100644
--- a/exp.hh
+++ b/exp.hh
@@ -15,13 +15,16 @@ template <typename TYPE>
 TYPE ldexp(TYPE x, int n)
 {
 	int a = n < 0 ? -n : n;
-	int a8 = a / 8;
-	int ar = a - a8 * 8;
-	TYPE t = 1 << a8;
+	int a64 = a / 64;
+	int ar = a - a64 * 64;
+	TYPE t = 1 << a64;
 	t *= t;
 	t *= t;
 	t *= t;
-	t *= 1 << ar;
+	t *= t;
+	t *= t;
+	t *= t;
+	t *= 1ULL << ar;
 	return n < 0 ? x / t : x * t;
 }
 
-- 
2.43.0


From f66df7fe160bbb1557cd4bb3bb1928364fc1487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:36 +0000
Subject: [PATCH 05/10] fix: use the floating-point abs in coeffs and sma

With only <cmath> included, unqualified abs was the integer function from the C library.
Normalizing divided by the truncated sum and the absolute deviation was truncated.
---
 coeffs.hh | 3 +++
 sma.hh    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/coeffs.hh b/coeffs.hh
index a9bccd6..a9e123f 100644
--- a/coeffs.hh
+++ b/coeffs.hh
@@ -6,6 +6,8 @@ Copyright 2018 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <cmath>
+
 namespace DSP {
 
 template <int TAPS, typename TYPE, bool NORMALIZE = false>
@@ -31,6 +33,7 @@ public:
 	}
 	void normalize(TYPE divisor = 1)
 	{
+		using std::abs;
 		TYPE sum(0);
 		for (int n = 0; n < TAPS; ++n)
 			sum += w[n];
diff --git a/sma.hh b/sma.hh
index dd2039a..189ca9a 100644
--- a/sma.hh
+++ b/sma.hh
@@ -6,6 +6,7 @@ Copyright 2019 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <cmath>
 #include "kahan.hh"
 #include "delay.hh"
 #include "swa.hh"
@@ -26,6 +27,7 @@ public:
 	}
 	VALUE abs_dev()
 	{
+		using std::abs;
 		VALUE sum(abs(hist_inp[0] - hist_avg));
 		for (int i = 1; i < NUM; ++i)
 			sum += abs(hist_inp[i] - hist_avg);
-- 
2.43.0


From 0d485092ebe03f422133be746a3b05af3209aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:01 +0000
Subject: [PATCH 06/10] fix: reject WAV files without channels

A header with zero channels divided by zero while computing the number of frames.
---
 wav.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wav.hh b/wav.hh
index 94c8e95..a6a45ca 100644
--- a/wav.hh
+++ b/wav.hh
@@ -67,6 +67,8 @@ public:
 		if (AudioFormat != 1 && AudioFormat != 3)
 			return;
 		channels_ = readLE(2);
+		if (channels_ < 1)
+			return;
 		rate_ = readLE(4);
 		int ByteRate = readLE(4);
 		int BlockAlign = readLE(2);
-- 
2.43.0


From 6b9e8b223b704703259a29057ce6b43f370ac887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:01 +0000
Subject: [PATCH 07/10] fix: report rejected WAV files as not good

After rejecting a header the reader still reported good().
Its format accessors then returned uninitialized values.
---
 wav.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wav.hh b/wav.hh
index a6a45ca..732f173 100644
--- a/wav.hh
+++ b/wav.hh
@@ -17,6 +17,7 @@ class ReadWAV : public ReadPCM<TYPE>
 	std::ifstream is;
 	int bits_, bytes, rate_, channels_, frames_;
 	int offset, factor;
+	bool valid;
 	int readLE(int b)
 	{
 		int v = 0;
@@ -45,7 +46,9 @@ class ReadWAV : public ReadPCM<TYPE>
 		return u.f;
 	}
 public:
-	ReadWAV(const char *name) : is(name, std::ios::binary)
+	ReadWAV(const char *name) : is(name, std::ios::binary),
+		bits_(0), bytes(0), rate_(0), channels_(0), frames_(-1),
+		offset(0), factor(1), valid(false)
 	{
 		char ChunkID[4];
 		is.read(ChunkID, 4);
@@ -127,6 +130,7 @@ public:
 			default:
 				return;
 		}
+		valid = true;
 	}
 	void read(TYPE *buf, int num, int stride = -1)
 	{
@@ -143,7 +147,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return valid && is.good();
 	}
 	void skip(int num)
 	{
-- 
2.43.0


From 67d261fd3d1ef555bc3ba548e53b4e7c38764147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:01 +0000
Subject: [PATCH 08/10] fix: report rejected Netpbm files as not good

After rejecting a header the reader still reported good().
Its accessors then returned uninitialized values.
---
 netpbm.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6d78ac8..74e932b 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -16,7 +16,7 @@ class ReadPNM : public ReadPEL<TYPE>
 {
 	std::ifstream is;
 	int width_, height_, maxval_;
-	bool mono_;
+	bool mono_, valid_;
 
 	TYPE linear(int val)
 	{
@@ -41,7 +41,8 @@ class ReadPNM : public ReadPEL<TYPE>
 		return c - '0';
 	}
 public:
-	ReadPNM(const char *name) : is(name, std::ios::binary)
+	ReadPNM(const char *name) : is(name, std::ios::binary),
+		width_(0), height_(0), maxval_(0), mono_(true), valid_(false)
 	{
 		if (is.get() != 'P')
 			return;
@@ -73,6 +74,7 @@ public:
 		width_ = num[0];
 		height_ = num[1];
 		maxval_ = num[2];
+		valid_ = true;
 	}
 	void read(TYPE *buf, int num, int stride = -1)
 	{
@@ -98,7 +100,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return valid_ && is.good();
 	}
 	bool mono()
 	{
-- 
2.43.0


From 393c92fbdc613efd4af74f311c8aab4be6d3676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:01 +0000
Subject: [PATCH 09/10] fix: use two bytes per Netpbm sample when maxval
 exceeds 255

The format stores such samples as big-endian 16-bit values.
Only the low byte was written and read.
---
 netpbm.hh | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 74e932b..79028f9 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -24,6 +24,13 @@ class ReadPNM : public ReadPEL<TYPE>
 		TYPE phi(12.92 * maxval_), a(0.055 * maxval_), gamma(2.4);
 		return val <= K0 ? val / phi : std::pow((val + a) / (maxval_ + a), gamma);
 	}
+	int sample()
+	{
+		int val = is.get();
+		if (maxval_ > 255)
+			val = (val << 8) | is.get();
+		return val;
+	}
 	static bool space(int c)
 	{
 		return c == ' ' || c == '\n' || c == '\t';
@@ -82,16 +89,16 @@ public:
 			if (stride < 0)
 				stride = 1;
 			for (int i = 0; i < num; ++i) {
-				int G = is.get();
+				int G = sample();
 				buf[stride*i] = linear(G);
 			}
 		} else {
 			if (stride < 0)
 				stride = 3;
 			for (int i = 0; i < num; ++i) {
-				int R = is.get();
-				int G = is.get();
-				int B = is.get();
+				int R = sample();
+				int G = sample();
+				int B = sample();
 				buf[stride*i+0] = linear(R);
 				buf[stride*i+1] = linear(G);
 				buf[stride*i+2] = linear(B);
@@ -130,6 +137,12 @@ class WritePNM : public WritePEL<TYPE>
 		val = val <= K0 / phi ? val * phi : (1 + a) * std::pow(val, 1 / gamma) - a;
 		return std::nearbyint(maxval_ * val);
 	}
+	void sample(int val)
+	{
+		if (maxval_ > 255)
+			os.put(val >> 8);
+		os.put(val);
+	}
 public:
 	WritePNM(const char *name, int width, int height, bool mono = false, int maxval = 255) :
 		os(name, std::ios::binary | std::ios::trunc),
@@ -145,7 +158,7 @@ public:
 				stride = 1;
 			for (int i = 0; i < num; ++i) {
 				int G = srgb(buf[stride*i]);
-				os.put(G);
+				sample(G);
 			}
 		} else {
 			if (stride < 0)
@@ -154,9 +167,9 @@ public:
 				int R = srgb(buf[stride*i+0]);
 				int G = srgb(buf[stride*i+1]);
 				int B = srgb(buf[stride*i+2]);
-				os.put(R);
-				os.put(G);
-				os.put(B);
+				sample(R);
+				sample(G);
+				sample(B);
 			}
 		}
 	}
-- 
2.43.0


From 334cb4114ced397961f878619f05aa2a38e7ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:04 +0000
Subject: [PATCH 10/10] fix: compare WAV header sizes without overflow

A corrupted sample rate whose product with the block size wraps around was accepted.
The signed overflow is also undefined behaviour.
---
 wav.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wav.hh b/wav.hh
index 732f173..f137093 100644
--- a/wav.hh
+++ b/wav.hh
@@ -85,7 +85,7 @@ public:
 		bytes = bits_ / 8;
 		if (bytes * channels_ != BlockAlign)
 			return;
-		if (rate_ * bytes * channels_ != ByteRate)
+		if ((long long)rate_ * BlockAlign != ByteRate)
 			return;
 		if (Subchunk1Size == 18) {
 			int ExtSize = readLE(2);
@@ -109,7 +109,7 @@ public:
 		if (Subchunk2Size <= 0 || ChunkSize <= 0) {
 			frames_ = -1;
 		} else {
-			if (Subchunk2Size + overhead - 8 != ChunkSize)
+			if (Subchunk2Size != ChunkSize - overhead + 8)
 				return;
 			if (Subchunk1Size == 16)
 				frames_ = Subchunk2Size / (bytes * channels_);
-- 
2.43.0

