From 3797b368f36757942ddefc74cb36bc66a2b3f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:42 +0000
Subject: [PATCH 01/11] fix: start MovMax from the lowest value

With the smallest positive value as the start value, an early input equal to
it was dropped from the window together with the start value and the maximum
reported afterwards was too small.
---
 movext.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movext.hh b/movext.hh
index ab9bf08..b66ffac 100644
--- a/movext.hh
+++ b/movext.hh
@@ -62,7 +62,7 @@ class MovMax
 {
 	MovExt<TYPE, std::equal_to<TYPE>, std::greater<TYPE>, NUM> movmax;
 public:
-	MovMax() : movmax(std::numeric_limits<TYPE>::min())
+	MovMax() : movmax(std::numeric_limits<TYPE>::lowest())
 	{
 	}
 	TYPE operator () (TYPE input)
-- 
2.43.0


From 356d41c037e2900dbd06ee1058f7115adf8a9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:12 +0000
Subject: [PATCH 02/11] fix: move every negative frequency when zero padding

For odd input lengths the first negative frequency was left behind, and for
output lengths close to the input length moved bins were overwritten or
cleared.
---
 fdzp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fdzp.hh b/fdzp.hh
index 09d71e4..c2b2bff 100644
--- a/fdzp.hh
+++ b/fdzp.hh
@@ -23,14 +23,14 @@ public:
 	void operator ()(CMPLX *output, const CMPLX *input)
 	{
 		fwd(tmp, input);
+		for (int i = INPUT-1; i > INPUT/2; --i)
+			tmp[OUTPUT-INPUT+i] = tmp[i];
+		for (int i = INPUT/2+1; i <= OUTPUT-INPUT+INPUT/2; ++i)
+			tmp[i] = 0;
 		if (!(INPUT&1)) {
 			tmp[INPUT/2] *= VALUE(0.5);
 			tmp[OUTPUT-INPUT/2] = tmp[INPUT/2];
 		}
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[OUTPUT-INPUT+i] = tmp[i];
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[i] = 0;
 		bwd(output, tmp);
 		for (int i = 0; i < OUTPUT; ++i)
 			output[i] *= SCALE;
-- 
2.43.0


From 3492c866e93ac610ad80611bdf3d4996252145a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:54 +0000
Subject: [PATCH 03/11] fix: scale by powers of two beyond 2^247

ldexp shifted an int by |n|/8, which is out of range from |n| = 248 on:
ldexp(1., 300) gave 2^44 and exp10(100.) gave 8.6e22.
---
 exp.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exp.hh b/exp.hh
index 6e822a4..9bff3f9 100644
--- a/exp.hh
+++ b/exp.hh
@@ -15,13 +15,15 @@ template <typename TYPE>
 TYPE ldexp(TYPE x, int n)
 {
 	int a = n < 0 ? -n : n;
-	int a8 = a / 8;
-	int ar = a - a8 * 8;
-	TYPE t = 1 << a8;
+	int a32 = a / 32;
+	int ar = a - a32 * 32;
+	TYPE t = 1ull << a32;
 	t *= t;
 	t *= t;
 	t *= t;
-	t *= 1 << ar;
+	t *= t;
+	t *= t;
+	t *= 1ull << ar;
 	return n < 0 ? x / t : x * t;
 }
 
-- 
2.43.0


From de4d03562d4cf7aff5c9a74274bb4250825e409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:31 +0000
Subject: [PATCH 04/11] fix: initialise everything a rejected WAV header leaves
 unset

A header that was rejected, or that ended early, left the frame count and
other members indeterminate.
---
 wav.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wav.hh b/wav.hh
index 94c8e95..e055716 100644
--- a/wav.hh
+++ b/wav.hh
@@ -45,18 +45,19 @@ class ReadWAV : public ReadPCM<TYPE>
 		return u.f;
 	}
 public:
-	ReadWAV(const char *name) : is(name, std::ios::binary)
+	ReadWAV(const char *name) : is(name, std::ios::binary),
+		bits_(0), bytes(0), rate_(0), channels_(0), frames_(0), offset(0), factor(1)
 	{
-		char ChunkID[4];
+		char ChunkID[4] = {};
 		is.read(ChunkID, 4);
 		if (cmp4("RIFF", ChunkID))
 			return;
 		int ChunkSize = readLE(4);
-		char Format[4];
+		char Format[4] = {};
 		is.read(Format, 4);
 		if (cmp4("WAVE", Format))
 			return;
-		char Subchunk1ID[4];
+		char Subchunk1ID[4] = {};
 		is.read(Subchunk1ID, 4);
 		if (cmp4("fmt ", Subchunk1ID))
 			return;
@@ -86,7 +87,7 @@ public:
 			int ExtSize = readLE(2);
 			if (ExtSize != 0)
 				return;
-			char SubchunkID[4];
+			char SubchunkID[4] = {};
 			is.read(SubchunkID, 4);
 			if (cmp4("fact", SubchunkID))
 				return;
@@ -95,7 +96,7 @@ public:
 				return;
 			frames_ = readLE(4);
 		}
-		char Subchunk2ID[4];
+		char Subchunk2ID[4] = {};
 		is.read(Subchunk2ID, 4);
 		if (cmp4("data", Subchunk2ID))
 			return;
-- 
2.43.0


From e58a7ac0374a99886cd95247c9e5ac4deb7e1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:31 +0000
Subject: [PATCH 05/11] fix: reject WAV headers without channels

A header with zero channels made the constructor divide by zero.
---
 wav.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav.hh b/wav.hh
index e055716..7ec07d7 100644
--- a/wav.hh
+++ b/wav.hh
@@ -79,7 +79,7 @@ public:
 		if (bits_ == 32 && AudioFormat != 3)
 			return;
 		bytes = bits_ / 8;
-		if (bytes * channels_ != BlockAlign)
+		if (channels_ <= 0 || bytes * channels_ != BlockAlign)
 			return;
 		if (rate_ * bytes * channels_ != ByteRate)
 			return;
-- 
2.43.0


From e70a6166bef0af211063976acc440df4bcdf22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:31 +0000
Subject: [PATCH 06/11] fix: report frames of accepted WAV headers only

The count from the fact chunk was kept even if the header was then
rejected for contradicting sizes.
---
 wav.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wav.hh b/wav.hh
index 7ec07d7..b6cef31 100644
--- a/wav.hh
+++ b/wav.hh
@@ -83,6 +83,7 @@ public:
 			return;
 		if (rate_ * bytes * channels_ != ByteRate)
 			return;
+		int FrameCount = 0;
 		if (Subchunk1Size == 18) {
 			int ExtSize = readLE(2);
 			if (ExtSize != 0)
@@ -94,7 +95,7 @@ public:
 			int SubchunkSize = readLE(4);
 			if (SubchunkSize != 4)
 				return;
-			frames_ = readLE(4);
+			FrameCount = readLE(4);
 		}
 		char Subchunk2ID[4] = {};
 		is.read(Subchunk2ID, 4);
@@ -108,7 +109,8 @@ public:
 			if (Subchunk2Size + overhead - 8 != ChunkSize)
 				return;
 			if (Subchunk1Size == 16)
-				frames_ = Subchunk2Size / (bytes * channels_);
+				FrameCount = Subchunk2Size / (bytes * channels_);
+			frames_ = FrameCount;
 		}
 		switch (bits_) {
 			case 8:
-- 
2.43.0


From 7182f029624df582a7f458ea888ce3babaa8a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:31 +0000
Subject: [PATCH 07/11] fix: avoid integer overflow when checking WAV headers

---
 wav.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wav.hh b/wav.hh
index b6cef31..f0f6aa0 100644
--- a/wav.hh
+++ b/wav.hh
@@ -81,7 +81,7 @@ public:
 		bytes = bits_ / 8;
 		if (channels_ <= 0 || bytes * channels_ != BlockAlign)
 			return;
-		if (rate_ * bytes * channels_ != ByteRate)
+		if (rate_ * (long long)(bytes * channels_) != ByteRate)
 			return;
 		int FrameCount = 0;
 		if (Subchunk1Size == 18) {
@@ -106,7 +106,7 @@ public:
 		if (Subchunk2Size <= 0 || ChunkSize <= 0) {
 			frames_ = -1;
 		} else {
-			if (Subchunk2Size + overhead - 8 != ChunkSize)
+			if (Subchunk2Size != ChunkSize - (overhead - 8))
 				return;
 			if (Subchunk1Size == 16)
 				FrameCount = Subchunk2Size / (bytes * channels_);
-- 
2.43.0


From 59a18e6a790beedbb106dd4459788e8ee10df234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:31 +0000
Subject: [PATCH 08/11] fix: initialise everything a rejected Netpbm header
 leaves unset

---
 netpbm.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6d78ac8..54ec5e8 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -41,7 +41,8 @@ class ReadPNM : public ReadPEL<TYPE>
 		return c - '0';
 	}
 public:
-	ReadPNM(const char *name) : is(name, std::ios::binary)
+	ReadPNM(const char *name) : is(name, std::ios::binary),
+		width_(0), height_(0), maxval_(255), mono_(false)
 	{
 		if (is.get() != 'P')
 			return;
-- 
2.43.0


From 4a8379962185c4b92f28c6487cddc0f1adfe6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:31 +0000
Subject: [PATCH 09/11] fix: skip Netpbm comments wherever blanks are allowed

A comment was only recognised directly after the first line break, not
after other blanks or an empty line.
---
 netpbm.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 54ec5e8..1722140 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -61,11 +61,9 @@ public:
 			return;
 		int num[3];
 		for (int i = 0; i < 3; ++i) {
-			if (newline(c))
-				for (c = is.get(); c == '#'; c = is.get())
+			for (; space(c) || c == '#'; c = is.get())
+				if (c == '#')
 					while (is.good() && !newline(is.get()));
-			while (space(c))
-				c = is.get();
 			for (num[i] = 0; digit(c); c = is.get())
 				num[i] = 10 * num[i] + value(c);
 		}
-- 
2.43.0


From 172fe2a8626fbf7534394f86e3aeb958d9d43c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:31 +0000
Subject: [PATCH 10/11] fix: put the knee of the sRGB curve below the first
 brighter value

Rounding moved it above one more value for some maximum values, like 15,
which was then decoded with the wrong piece of the curve.
---
 netpbm.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netpbm.hh b/netpbm.hh
index 1722140..f002aa7 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -20,7 +20,7 @@ class ReadPNM : public ReadPEL<TYPE>
 
 	TYPE linear(int val)
 	{
-		int K0 = std::nearbyint(0.04045 * maxval_);
+		int K0 = 0.04045 * maxval_;
 		TYPE phi(12.92 * maxval_), a(0.055 * maxval_), gamma(2.4);
 		return val <= K0 ? val / phi : std::pow((val + a) / (maxval_ + a), gamma);
 	}
-- 
2.43.0


From 10192a6216760faee35489c365f53cc4f9935377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:14 +0000
Subject: [PATCH 11/11] fix: compare WAV chunk sizes by the layout of the
 header

---
 wav.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav.hh b/wav.hh
index f0f6aa0..286dfef 100644
--- a/wav.hh
+++ b/wav.hh
@@ -102,7 +102,7 @@ public:
 		if (cmp4("data", Subchunk2ID))
 			return;
 		int Subchunk2Size = readLE(4);
-		int overhead = bits_ == 32 ? 58 : 44;
+		int overhead = Subchunk1Size == 18 ? 58 : 44;
 		if (Subchunk2Size <= 0 || ChunkSize <= 0) {
 			frames_ = -1;
 		} else {
-- 
2.43.0

