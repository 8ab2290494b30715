From f65ac99f168a7a0468213a0bc707e2b221a7693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 01/24] fix: varint: check bounds and overflow on the byte
 being decoded

The reader looked at the byte following the varint (possibly out of the
buffer) to detect an overflow, after having read past src_len, and let
overflowing last bytes through.
---
 src/varint.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index fc23071..fd5fc89 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -45,11 +45,14 @@
  * @param val[out] : Value read.
  * @param val_len[out] : Length in byte read from the source.
  * @param val_len_max : Maximum value length in byte read.
+ * @param last_max : Maximum value of the byte at index `val_len_max` - 1,
+ *                   above it the value overflows its type.
  *
  * @return 0 in case of success, negative errno value in case of error.
  */
 static int futils_varint_read(const uint8_t *src, size_t src_len,
-		uint64_t *val, size_t *val_len, size_t val_len_max)
+		uint64_t *val, size_t *val_len, size_t val_len_max,
+		uint8_t last_max)
 {
 	uint32_t shift = 0;
 	size_t offset = 0;
@@ -61,15 +64,15 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	*val = 0;
 	/* Decode value */
 	do {
+		if ((offset >= src_len) ||
+		    (offset == val_len_max - 1 && src[offset] > last_max))
+			return -EPROTO;
+
 		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
 		more = src[offset] & 0x80;
 
 		offset++;
 		shift += 7;
-		if ((offset > src_len) ||
-		    (offset > val_len_max) ||
-		    (offset == val_len_max && src[offset] & 0x0f))
-			return -EPROTO;
 	} while (more);
 
 	*val_len = offset;
@@ -122,7 +125,7 @@ int futils_varint_read_u16(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val) + 1, 0x03);
 
 	*val = (uint16_t)val64;
 	return res;
@@ -144,7 +147,7 @@ int futils_varint_read_i16(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val) + 1, 0x03);
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int16_t)(val64 >> 1)) ^ -((int16_t)(val64 & 0x1));
@@ -170,7 +173,7 @@ int futils_varint_read_u32(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val) + 1, 0x0f);
 
 	*val = (uint32_t)val64;
 	return res;
@@ -192,7 +195,7 @@ int futils_varint_read_i32(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val) + 1, 0x0f);
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int32_t)(val64 >> 1)) ^ -((int32_t)(val64 & 0x1));
@@ -212,7 +215,7 @@ int futils_varint_read_u64(const uint8_t *src, size_t src_len,
 		uint64_t *val, size_t *val_len)
 {
 	return futils_varint_read(src, src_len,
-			val, val_len, sizeof(*val) + 2);
+			val, val_len, sizeof(*val) + 2, 0x01);
 }
 
 int futils_varint_write_u64(uint8_t *dst, size_t dst_len,
@@ -231,7 +234,7 @@ int futils_varint_read_i64(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 2);
+			&val64, val_len, sizeof(*val) + 2, 0x01);
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int64_t)(val64 >> 1)) ^ -((int64_t)(val64 & 0x1));
-- 
2.43.0


From f636f25f2b5cfd688040e0d4001d39d7823f7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 02/24] fix: timetools: normalise the difference of times with
 equal nanoseconds

time_timespec_diff() returned {sec - 1, 1000000000} when both times had
the same tv_nsec.
---
 src/timetools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index c902b69..3b16731 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -244,7 +244,7 @@ int time_timespec_diff(const struct timespec *start,
 		return -EINVAL;
 
 	/* diff = end - start */
-	if (end->tv_nsec > start->tv_nsec) {
+	if (end->tv_nsec >= start->tv_nsec) {
 		diff->tv_sec = end->tv_sec - start->tv_sec;
 		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
 	} else {
-- 
2.43.0


From 2314f23df82753f625e9ff049fa88ab8d3b5771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 03/24] fix: timetools: report the difference of equal times

time_timespec_diff_in_range() left *diff_us unset when t1 equals t2.
---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 3b16731..757e73b 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -307,8 +307,11 @@ int time_timespec_diff_in_range(const struct timespec *t1,
 	memset(&diff, 0, sizeof(diff));
 
 	ret = time_timespec_cmp(t1, t2);
-	if (ret == 0)
+	if (ret == 0) {
+		if (out_diff_us)
+			*out_diff_us = 0;
 		return 1;
+	}
 
 	if (ret == 1) {
 		ret = time_timespec_diff(t2, t1, &diff);
-- 
2.43.0


From e5ad3a013ebf0214e0ad6f7be1dadbc26738ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 04/24] fix: timetools: exact sum for large microsecond amounts

time_timespec_add_us() overflowed int64_t for amounts above about 292
years, which 64-bit time_t represents.
---
 src/timetools.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/timetools.c b/src/timetools.c
index 757e73b..b29b364 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -431,16 +431,10 @@ exit:
 	return ret;
 }
 
-int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
+/* Add sec seconds and ns nanoseconds (|ns| < 1 second) to a timespec */
+static void timespec_add(const struct timespec *ts, int64_t sec, int64_t ns,
 			 struct timespec *res)
 {
-	int64_t sec = 0, ns = 0;
-	if (!ts || !res)
-		return -EINVAL;
-
-	sec = delta / 1000000000;
-	ns =  delta % 1000000000;
-
 	res->tv_sec = ts->tv_sec + sec;
 	res->tv_nsec = ts->tv_nsec + ns;
 	if (res->tv_nsec >= 1000000000) {
@@ -450,6 +444,15 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 		res->tv_nsec += 1000000000;
 		res->tv_sec--;
 	}
+}
+
+int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
+			 struct timespec *res)
+{
+	if (!ts || !res)
+		return -EINVAL;
+
+	timespec_add(ts, delta / 1000000000, delta % 1000000000, res);
 
 	return 0;
 }
@@ -457,7 +460,13 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 int time_timespec_add_us(const struct timespec *ts, int64_t delta,
 			 struct timespec *res)
 {
-	return time_timespec_add_ns(ts, delta * 1000, res);
+	if (!ts || !res)
+		return -EINVAL;
+
+	/* do not multiply delta by 1000, it can overflow */
+	timespec_add(ts, delta / 1000000, (delta % 1000000) * 1000, res);
+
+	return 0;
 }
 
 int time_timeval_to_timespec(const struct timeval *tv, struct timespec *ts)
-- 
2.43.0


From 533ee86f668707b55aa0f57ce78f6afff475bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 05/24] fix: string: refuse values above the last Unicode code
 point

iconv accepts (and produces) 4- to 6-byte sequences for values above
U+10FFFF, so that text which is not valid UTF-8 was reported sane and
sanitised text could be invalid.
---
 src/string.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index 404a6d8..692253f 100644
--- a/src/string.c
+++ b/src/string.c
@@ -33,6 +33,7 @@
 
 #include <errno.h>
 #include <iconv.h>
+#include <stdint.h>
 #include <wchar.h>
 
 #define ULOG_TAG futils_string
@@ -40,13 +41,18 @@
 ULOG_DECLARE_TAG(ULOG_TAG);
 
 
+/* iconv may accept and produce sequences for values above the last Unicode
+ * code point, which are not valid UTF-8 */
+#define UNICODE_MAX 0x10ffff
+
+
 static int to_wchar_string(const char *input_, size_t in_len, wchar_t **output_)
 {
 	char *input, *output;
 	size_t inbytes, outbytes, outsize, sret;
 	wchar_t *woutput = NULL;
 	iconv_t conv;
-	int ret = 0;
+	int i, ret = 0;
 
 	*output_ = NULL;
 
@@ -79,6 +85,12 @@ static int to_wchar_string(const char *input_, size_t in_len, wchar_t **output_)
 	/* ret is the number of wide characters written to output_ */
 	ret = (outsize - outbytes) / sizeof(wchar_t);
 
+	for (i = 0; i < ret; i++) {
+		if ((uint32_t)woutput[i] > UNICODE_MAX) {
+			ret = -EILSEQ;
+			goto exit;
+		}
+	}
 
 exit:
 	iconv_close(conv);
@@ -157,6 +169,10 @@ int futils_string_sanitize_utf8(const char *input,
 	for (i = 0; i < w_len; i++) {
 		if (wcschr(forbidden_chars, winput[i]) == NULL)
 			continue;
+		if ((uint32_t)replacement_char > UNICODE_MAX) {
+			ret = -EILSEQ;
+			goto exit;
+		}
 		winput[i] = replacement_char;
 	}
 
-- 
2.43.0


From 4180d62acd535662eda1befebe10bc29698ff26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 06/24] fix: systimetools: refuse out of range and signed date
 and time fields

Fields were taken as they came: a month above 14 read past the table of
cumulative days, and "+5", "-5" or " 5" were accepted as numbers.
---
 src/systimetools.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7ed23d2..7858498 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -87,10 +87,33 @@ static int parse_num(const char *s, int *num)
 {
 	char *end = NULL;
 	errno = 0;
+	/* strtol also accepts leading spaces and a sign */
+	if (!isdigit((unsigned char)s[0]))
+		return -EINVAL;
 	*num = strtol(s, &end, 10);
 	return (end == NULL || *end != '\0') ? -EINVAL : -errno;
 }
 
+static int check_date_range(int year, int mon, int mday)
+{
+	static const int mon_days[12] = {
+		31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31
+	};
+	int leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
+
+	if (mon < 1 || mon > 12)
+		return -EINVAL;
+	if (mday < 1 || mday > mon_days[mon - 1] + (mon == 2 && leap))
+		return -EINVAL;
+	return 0;
+}
+
+static int check_time_range(int hour, int min, int sec)
+{
+	/* allow for a leap second */
+	return (hour > 23 || min > 59 || sec > 60) ? -EINVAL : 0;
+}
+
 static int parse_wday(const char *s, int *num)
 {
 	int i, ret = -ENOENT;
@@ -166,7 +189,7 @@ static int parse_date(const char *s, size_t n, int *year, int *mon, int *mday)
 	if (ret < 0)
 		return ret;
 
-	return ret;
+	return check_date_range(*year, *mon, *mday);
 }
 
 /*
@@ -248,6 +271,9 @@ static int parse_date_rfc1123(const char *s, size_t n,
 	if (ret < 0)
 		return ret;
 	ret = parse_num(mday_s, mday);
+	if (ret < 0)
+		return ret;
+	ret = check_date_range(*year, *mon, *mday);
 	if (ret < 0)
 		return ret;
 
@@ -315,6 +341,9 @@ static int parse_time(const char *s, size_t n,
 	if (ret < 0)
 		return ret;
 	ret = parse_num(sec_s, sec);
+	if (ret < 0)
+		return ret;
+	ret = check_time_range(*hour, *min, *sec);
 	if (ret < 0)
 		return ret;
 
-- 
2.43.0


From e8439742a684a8fc86370366bbc4d99728173aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 07/24] fix: systimetools: check the separators of RFC 1123
 dates

---
 src/systimetools.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7858498..5f7f85f 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -203,7 +203,7 @@ static int parse_date_rfc1123(const char *s, size_t n,
 	char year_s[5], mon_s[4], mday_s[3], wday_s[4];
 	bool inverted = false;
 
-	if (s[3] != ',')
+	if (s[3] != ',' || s[4] != ' ')
 		return -EINVAL;
 
 	wday_s[0] = s[offset++];
@@ -231,19 +231,22 @@ static int parse_date_rfc1123(const char *s, size_t n,
 			mday_s[1] = s[offset++];
 			mday_s[2] = '\0';
 		}
-		offset++;
+		if (s[offset++] != ' ')
+			return -EINVAL;
 
 		mon_s[0] = s[offset++];
 		mon_s[1] = s[offset++];
 		mon_s[2] = s[offset++];
 		mon_s[3] = '\0';
-		offset++;
+		if (s[offset++] != ' ')
+			return -EINVAL;
 	} else {
 		mon_s[0] = s[offset++];
 		mon_s[1] = s[offset++];
 		mon_s[2] = s[offset++];
 		mon_s[3] = '\0';
-		offset++;
+		if (s[offset++] != ' ')
+			return -EINVAL;
 
 		mday_s[0] = s[offset++];
 		if (s[offset] == ' ') {
@@ -256,7 +259,8 @@ static int parse_date_rfc1123(const char *s, size_t n,
 			mday_s[1] = s[offset++];
 			mday_s[2] = '\0';
 		}
-		offset++;
+		if (s[offset++] != ' ')
+			return -EINVAL;
 	}
 	year_s[0] = s[offset++];
 	year_s[1] = s[offset++];
-- 
2.43.0


From 597d8e060dc3f23a1f9d35ae6df182547f4c4b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 08/24] fix: random: independent characters at the end of
 base64 text

---
 src/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index a552044..8837f39 100644
--- a/src/random.c
+++ b/src/random.c
@@ -1353,7 +1353,7 @@ int futils_random_base64(char *buffer, size_t len, size_t count)
 
 		for (i = 0; i < (c * 8) / 6; i++) {
 			b[i] = alphabet[v & 63];
-			v >>= 3;
+			v >>= 6;
 		}
 
 		/* last character has only a limited number of bits */
-- 
2.43.0


From 2275f987f1993a112e2c5e3d2f1d8452097f96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 09/24] fix: safew: keep the files needed to recover when a
 commit fails

---
 src/safew.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a293367..ed848ca 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -274,18 +274,21 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 		/* move tmp payload to payload */
 		ret = rename(safew_fp->tmp_path, safew_fp->path);
 
-	if (ret == 0 && with_crc)
-		/* move tmp payload to payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
-
 	if (ret < 0) {
 		ULOGE("safe write fclose commit %s: error", safew_fp->path);
 		unlink(safew_fp->tmp_path);
 
-		if (with_crc) {
-			unlink(crc_fp.path);
+		/* the previous payload is still there, and so must be its
+		 * crc */
+		if (with_crc)
 			unlink(crc_fp.tmp_path);
-		}
+	} else if (with_crc) {
+		/* move tmp crc to crc; in case of error the tmp crc is the only
+		 * one matching the payload, it is needed to recover */
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		if (ret < 0)
+			ULOGE("safe write fclose commit %s: crc error",
+			      safew_fp->path);
 	}
 
 	free(safew_fp);
-- 
2.43.0


From 05b8ac2cd785ba2ffbcd377a9e4d620a8d80d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 10/24] fix: safew: fail the commit when its payload can't be
 read back

---
 src/safew.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index ed848ca..b2f4298 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -47,7 +47,7 @@ ULOG_DECLARE_TAG(ULOG_TAG);
 #define TMP_PAYLOAD (1 << 2)
 #define TMP_CRC (1 << 3)
 
-static void crc_from_fhd(FILE *fhd, uint32_t *crc)
+static int crc_from_fhd(FILE *fhd, uint32_t *crc)
 {
 	int val;
 
@@ -61,6 +61,9 @@ static void crc_from_fhd(FILE *fhd, uint32_t *crc)
 	*crc += *crc << 3;
 	*crc ^= *crc >> 11;
 	*crc += *crc << 15;
+
+	/* the end of file is not the only reason to stop */
+	return ferror(fhd) ? -1 : 0;
 }
 
 static int crc_from_file(const char *pathname, uint32_t *crc)
@@ -73,11 +76,10 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 		return -1;
 	}
 
-	crc_from_fhd(fhd, crc);
+	ret = crc_from_fhd(fhd, crc);
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
-	ret = fclose(fhd);
-	if (ret < 0)
+	if (fclose(fhd) < 0)
 		return -1;
 
 	return ret;
-- 
2.43.0


From 4f25adc5424b0b99f12fe55a16d0d7556c44ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 11/24] fix: safew: recover the payload before its crc

---
 src/safew.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index b2f4298..7243023 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -518,11 +518,12 @@ int futils_safew_file_check(const char *pathname)
 			break;
 		}
 
-		/* rename tmp crc and tmp payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		/* rename tmp payload then tmp crc, as the commit does: a crc
+		 * moved first would match no payload if interrupted */
+		ret = rename(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -536,11 +537,11 @@ int futils_safew_file_check(const char *pathname)
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
 		if (tmp_crc == tmp_payload_crc) {
-			/* rename tmp crc and tmp payload */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			/* rename tmp payload then tmp crc */
+			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
-- 
2.43.0


From da99b7bfa8e4d199880900b4e46db4ef9539591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 12/24] fix: safew: try the other pair when a crc file is
 truncated

---
 src/safew.c | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 7243023..176becc 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -362,8 +362,7 @@ int futils_safew_file_check(const char *pathname)
 {
 	struct futils_safew_file fp;
 	struct futils_safew_crc crc_fp;
-	uint32_t crc, tmp_crc;
-	uint32_t payload_crc = 0;
+	uint32_t tmp_crc;
 	uint32_t tmp_payload_crc = 0;
 	FILE *payload_fhd;
 	FILE *crc_fhd;
@@ -473,30 +472,23 @@ int futils_safew_file_check(const char *pathname)
 	case PAYLOAD + CRC + TMP_CRC:
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
-		ret = read_crc(crc_fhd, &crc);
-		if (ret < 0)
-			break;
-
-		crc_from_fhd(payload_fhd, &payload_crc);
+		ret = check_pair(payload_fhd, crc_fhd);
 
 		/* if pair matches let's stop here */
-		if (crc == payload_crc)
+		if (ret == 0)
 			break;
 
 		/* this could be stage 8, in that case payload should match
 		 * tmp crc */
-		ret = read_crc(tmp_crc_fhd, &crc);
-		if (ret < 0)
-			break;
-
-		if (crc == payload_crc) {
+		rewind(payload_fhd);
+		ret = check_pair(payload_fhd, tmp_crc_fhd);
+		if (ret == 0) {
 			/* rename tmp crc */
 			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
 		ULOGE("no matching crc found for %s", pathname);
-		ret = -1;
 		break;
 
 	case PAYLOAD + TMP_CRC + TMP_PAYLOAD:
@@ -531,12 +523,8 @@ int futils_safew_file_check(const char *pathname)
 		 * both valid.
 		 * Check tmp pair first, if it fails test the other one
 		 */
-		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
-		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
-
-		if (tmp_crc == tmp_payload_crc) {
+		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
+		if (ret == 0) {
 			/* rename tmp payload then tmp crc */
 			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
@@ -546,16 +534,9 @@ int futils_safew_file_check(const char *pathname)
 		}
 
 		/* check the "old" pair (payload + crc) */
-		ret = read_crc(crc_fhd, &crc);
+		ret = check_pair(payload_fhd, crc_fhd);
 		if (ret < 0)
-			break;
-
-		crc_from_fhd(payload_fhd, &payload_crc);
-
-		if (crc != payload_crc) {
 			ULOGE("no matching crc found for %s", pathname);
-			ret = -1;
-		}
 		break;
 	}
 
-- 
2.43.0


From a1150cb03feca5ece349fc04baf1b0e9de9e869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 13/24] fix: safew: leave the files alone when a check can't
 read or move them

---
 src/safew.c | 75 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 25 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 176becc..bb3ac41 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -29,6 +29,7 @@
  *
  ******************************************************************************/
 
+#include <errno.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -89,12 +90,13 @@ static int read_crc(FILE *fhd, uint32_t *crc)
 {
 	if (fread(crc, 1, sizeof(uint32_t), fhd) != sizeof(uint32_t)) {
 		ULOGE("can't read crc file");
-		return -1;
+		return ferror(fhd) ? -2 : -1;
 	}
 
 	return 0;
 }
 
+/* return 0 if the pair is valid, -1 if not, -2 if it can't be read */
 static int check_pair(FILE *payload_fhd, FILE *crc_fhd)
 {
 	int ret = 0;
@@ -105,7 +107,9 @@ static int check_pair(FILE *payload_fhd, FILE *crc_fhd)
 	if (ret < 0)
 		return ret;
 
-	crc_from_fhd(payload_fhd, &payload_crc);
+	ret = crc_from_fhd(payload_fhd, &payload_crc);
+	if (ret < 0)
+		return -2;
 
 	if (crc != payload_crc)
 		return -1;
@@ -358,12 +362,28 @@ size_t futils_safew_fwrite(const void *ptr, size_t size, size_t nmemb,
 	return ret;
 }
 
+static FILE *open_if_present(const char *pathname, int *failure)
+{
+	FILE *fhd = fopen(pathname, "r");
+
+	if (fhd == NULL && errno != ENOENT) {
+		ULOGE("can't open file %s", pathname);
+		*failure = 1;
+	}
+
+	return fhd;
+}
+
+static int move_file(const char *oldpath, const char *newpath)
+{
+	return rename(oldpath, newpath) < 0 ? -2 : 0;
+}
+
 int futils_safew_file_check(const char *pathname)
 {
 	struct futils_safew_file fp;
 	struct futils_safew_crc crc_fp;
-	uint32_t tmp_crc;
-	uint32_t tmp_payload_crc = 0;
+	int failure = 0;
 	FILE *payload_fhd;
 	FILE *crc_fhd;
 	FILE *tmp_payload_fhd;
@@ -381,10 +401,10 @@ int futils_safew_file_check(const char *pathname)
 		return -1;
 
 	/* try to open all files */
-	payload_fhd = fopen(pathname, "r");
-	tmp_payload_fhd = fopen(fp.tmp_path, "r");
-	crc_fhd = fopen(crc_fp.path, "r");
-	tmp_crc_fhd = fopen(crc_fp.tmp_path, "r");
+	payload_fhd = open_if_present(pathname, &failure);
+	tmp_payload_fhd = open_if_present(fp.tmp_path, &failure);
+	crc_fhd = open_if_present(crc_fp.path, &failure);
+	tmp_crc_fhd = open_if_present(crc_fp.tmp_path, &failure);
 
 	/* create an error code with existing files */
 	uint8_t present_files =
@@ -419,7 +439,7 @@ int futils_safew_file_check(const char *pathname)
 	 *	payload_v2 + crc_v2
 	 */
 
-	switch (present_files) {
+	switch (failure ? 0 : present_files) {
 	case 0:		/* none is present */
 	case PAYLOAD:
 	case TMP_PAYLOAD:
@@ -453,7 +473,7 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp crc file */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = move_file(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case TMP_PAYLOAD + TMP_CRC:
@@ -463,10 +483,10 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp payload and crc */
-		ret = rename(fp.tmp_path, pathname);
+		ret = move_file(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = move_file(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + CRC + TMP_CRC:
@@ -475,7 +495,7 @@ int futils_safew_file_check(const char *pathname)
 		ret = check_pair(payload_fhd, crc_fhd);
 
 		/* if pair matches let's stop here */
-		if (ret == 0)
+		if (ret != -1)
 			break;
 
 		/* this could be stage 8, in that case payload should match
@@ -484,7 +504,7 @@ int futils_safew_file_check(const char *pathname)
 		ret = check_pair(payload_fhd, tmp_crc_fhd);
 		if (ret == 0) {
 			/* rename tmp crc */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = move_file(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
@@ -497,25 +517,20 @@ int futils_safew_file_check(const char *pathname)
 	case TMP_PAYLOAD + CRC + TMP_CRC:
 		/* this could be stage 7 with payload_v1 disappeared:
 		 * in that case tmp_payload should match tmp_crc */
-		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
-
-		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
 
 		/* if pair doesn't match erase all */
-		if (tmp_crc != tmp_payload_crc) {
+		if (ret < 0) {
 			ULOGE("no matching crc found for %s", pathname);
-			ret = -1;
 			break;
 		}
 
 		/* rename tmp payload then tmp crc, as the commit does: a crc
 		 * moved first would match no payload if interrupted */
-		ret = rename(fp.tmp_path, pathname);
+		ret = move_file(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = move_file(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -526,13 +541,16 @@ int futils_safew_file_check(const char *pathname)
 		ret = check_pair(tmp_payload_fhd, tmp_crc_fhd);
 		if (ret == 0) {
 			/* rename tmp payload then tmp crc */
-			ret = rename(fp.tmp_path, pathname);
+			ret = move_file(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = move_file(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
+		if (ret == -2)
+			break;
+
 		/* check the "old" pair (payload + crc) */
 		ret = check_pair(payload_fhd, crc_fhd);
 		if (ret < 0)
@@ -554,6 +572,13 @@ int futils_safew_file_check(const char *pathname)
 		if (fclose(tmp_crc_fhd) < 0)
 			ULOGE("error closing %s", crc_fp.tmp_path);
 
+	/* files which could not be read or moved are left as they are, there
+	 * could be a valid pair among them for a later check */
+	if (failure || ret == -2) {
+		ULOGE("can't check %s", pathname);
+		return -1;
+	}
+
 	/* remove remaining tmp file */
 	unlink(fp.tmp_path);
 	unlink(crc_fp.tmp_path);
-- 
2.43.0


From 274c51c5ec5415aa01f90dc7cf7cee7a9113c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 14/24] fix: safew: check the repositioning of the payload

---
 src/safew.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/safew.c b/src/safew.c
index bb3ac41..83684a1 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -500,7 +500,10 @@ int futils_safew_file_check(const char *pathname)
 
 		/* this could be stage 8, in that case payload should match
 		 * tmp crc */
-		rewind(payload_fhd);
+		if (fseek(payload_fhd, 0, SEEK_SET) < 0) {
+			ret = -2;
+			break;
+		}
 		ret = check_pair(payload_fhd, tmp_crc_fhd);
 		if (ret == 0) {
 			/* rename tmp crc */
-- 
2.43.0


From 59eb7126e68cf2fc6e66b78284db2b93f10b2c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 15/24] fix: safew: synchronise recovered files before moving
 them

---
 src/safew.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/safew.c b/src/safew.c
index 83684a1..dcdb4c3 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -374,6 +374,17 @@ static FILE *open_if_present(const char *pathname, int *failure)
 	return fhd;
 }
 
+static int sync_file(FILE *fhd)
+{
+#if !defined(_WIN32)
+# if !defined(THREADX_OS)
+	if (fhd != NULL && fsync(fileno(fhd)) < 0)
+		return -1;
+# endif
+#endif
+	return 0;
+}
+
 static int move_file(const char *oldpath, const char *newpath)
 {
 	return rename(oldpath, newpath) < 0 ? -2 : 0;
@@ -439,6 +450,11 @@ int futils_safew_file_check(const char *pathname)
 	 *	payload_v2 + crc_v2
 	 */
 
+	/* a tmp file may not have reached the storage if the commit writing it
+	 * was interrupted, it has to before being moved */
+	if (sync_file(tmp_payload_fhd) < 0 || sync_file(tmp_crc_fhd) < 0)
+		failure = 1;
+
 	switch (failure ? 0 : present_files) {
 	case 0:		/* none is present */
 	case PAYLOAD:
-- 
2.43.0


From 973dd91af0845642e70bec9a282a44b8b59b9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 16/24] fix: synctools: report the failure to synchronise the
 file

---
 src/synctools.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/synctools.c b/src/synctools.c
index 64b0aca..690e07f 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -88,14 +88,18 @@ int sync_folder(const char *folderpath)
 int sync_file_and_folder(const char *filepath)
 {
 	int ret;
+	int file_ret;
 	char *slash;
 	char *folderpath;
 
+	if (!filepath)
+		return -EINVAL;
+
 	/* sync file */
-	ret = sync_file(filepath);
-	if (ret < 0)
-		ULOGW("sync_file(%s) failed : %d(%s)", filepath, ret,
-				strerror(-ret));
+	file_ret = sync_file(filepath);
+	if (file_ret < 0)
+		ULOGW("sync_file(%s) failed : %d(%s)", filepath, file_ret,
+				strerror(-file_ret));
 
 	/* determine parent folder */
 	folderpath = strdup(filepath);
@@ -120,5 +124,6 @@ int sync_file_and_folder(const char *filepath)
 
 out:
 	free(folderpath);
-	return ret;
+	/* the folder does not make up for the file */
+	return file_ret < 0 ? file_ret : ret;
 }
-- 
2.43.0


From 03f781bd7abbf351856eb67329cf04fc4d3a76ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 17/24] fix: fs: report a directory which can't be listed
 completely

---
 src/fs.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index d1a11ca..1b14317 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -67,7 +67,17 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	}
 
 	/* iterate from dir */
-	while ((entry = readdir(dir)) != NULL) {
+	while (1) {
+		/* an error and the end of the directory both give NULL */
+		errno = 0;
+		entry = readdir(dir);
+		if (entry == NULL) {
+			ret = -errno;
+			if (ret < 0)
+				ULOG_ERRNO("can't readdir '%s'", -ret, path);
+			break;
+		}
+
 		/* skip "." and ".." */
 		if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))
 			continue;
-- 
2.43.0


From 2c28ce24945334dbea9923c23cb0ca3e7aed8f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 18/24] fix: fs: refuse too long paths instead of examining
 truncated ones

---
 src/fs.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index 1b14317..4f5d77b 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -50,6 +50,7 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	int64_t size = 0;
 	struct dirent *entry = NULL;
 	char *filepath = NULL;
+	int len;
 	struct stat stats;
 
 	/* open dir */
@@ -83,7 +84,12 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 			continue;
 
 		/* get entry status */
-		snprintf(filepath, FILENAME_MAX, "%s/%s", path, entry->d_name);
+		len = snprintf(filepath, FILENAME_MAX, "%s/%s", path,
+			       entry->d_name);
+		if (len < 0 || len >= FILENAME_MAX) {
+			ret = -ENAMETOOLONG;
+			goto clean;
+		}
 		if (lstat(filepath, &stats) < 0) {
 			ret = -errno;
 			ULOG_ERRNO("can't lstat '%s'", errno, filepath);
-- 
2.43.0


From 172cd131bd270e7df8e0582771e151d50c33ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 19/24] fix: dynmbox: close both ends of the pipe on exec

---
 src/dynmbox.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dc2b308..5cba80d 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -257,9 +257,10 @@ static int init_notify_channel(struct dynmbox *box)
 		return -errno;
 
 	/* set pipes CLOEXEC flag, and NONBLOCK for read end */
-	for (i = 0; i < 2; i++)
+	for (i = 0; i < 2; i++) {
 		fd_add_flags(box->fds[i], O_NONBLOCK);
-	fd_set_close_on_exec(box->fds[0]);
+		fd_set_close_on_exec(box->fds[i]);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 6b637b4823b0147e35f4e5fa20e11d6d8b6e1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 20/24] fix: dynmbox: exact deadline for timeouts above 71
 minutes

---
 src/dynmbox.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 5cba80d..6951810 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -558,7 +558,8 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 			return res;
 		}
 		time_timeval_to_timespec(&tv_now, &ts_now);
-		time_timespec_add_us(&ts_now, timeout_ms * 1000, &ts_abs);
+		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
+				     &ts_abs);
 	}
 
 	pthread_mutex_lock(&box->lock);
-- 
2.43.0


From 11f379a339d99c434e267703d4cbbbb1e39ad547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 21/24] fix: dynmbox: keep the descriptor readable exactly
 while messages wait

---
 src/dynmbox.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 6951810..15fc884 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -499,6 +499,7 @@ int dynmbox_push(struct dynmbox *box,
 			 size_t msg_size)
 {
 	int res;
+	bool was_empty;
 
 	if (!box || msg_size > box->max_msg_size || (msg_size > 0 && !msg))
 		return -EINVAL;
@@ -507,14 +508,17 @@ int dynmbox_push(struct dynmbox *box,
 	pthread_mutex_lock(&box->lock);
 
 	/* Write message to ring buffer */
+	was_empty = rbuf_is_empty(box);
 	res = do_push(box, msg, msg_size);
 	if (res)
 		goto fail;
 
-	pthread_mutex_unlock(&box->lock);
+	/* Write one byte into pipe/socket to signal mbox is readable; it is
+	 * read back, under the same lock, with the last queued message */
+	if (was_empty)
+		push_notify(box);
 
-	/* Write one byte into pipe/socket to signal mbox is readable */
-	push_notify(box);
+	pthread_mutex_unlock(&box->lock);
 
 	return 0;
 fail:
@@ -543,6 +547,7 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		size_t msg_size, unsigned int timeout_ms)
 {
 	int res;
+	bool was_empty;
 	struct timeval tv_now;
 	struct timespec ts_now;
 	struct timespec ts_abs;
@@ -575,15 +580,17 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	}
 
 	/* Write message to ring buffer (should always succeed) */
+	was_empty = rbuf_is_empty(box);
 	res = do_push(box, msg, msg_size);
 	assert(res == 0);
 	if (res)
 		goto fail; /* Return error (NDEBUG case) */
 
-	pthread_mutex_unlock(&box->lock);
-
 	/* Signal consumers */
-	push_notify(box);
+	if (was_empty)
+		push_notify(box);
+
+	pthread_mutex_unlock(&box->lock);
 
 	return 0;
 fail:
@@ -610,14 +617,16 @@ ssize_t dynmbox_peek(struct dynmbox *box, void *msg)
 		goto fail;
 	}
 
-	/* Read one byte from pipe/socket, ignoring failure */
-	pop_notify(box);
-
 	/* Read message from ring buffer */
 	msglen = do_peek(box, msg);
 	if (msglen < 0)
 		goto fail;
 
+	/* Read the byte from pipe/socket with the last message, ignoring
+	 * failure */
+	if (rbuf_is_empty(box))
+		pop_notify(box);
+
 	/* Signal condition */
 	pthread_cond_signal(&box->cond);
 
-- 
2.43.0


From 165a8beb1f2d1dfda70cdab8a731ad53fa7950f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 22/24] fix: mbox: keep waiting, for the remaining time, when
 outrun or interrupted

---
 src/mbox.c | 64 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/src/mbox.c b/src/mbox.c
index 4f709cc..622b130 100644
--- a/src/mbox.c
+++ b/src/mbox.c
@@ -38,6 +38,7 @@
 #include <limits.h>
 #include "futils/fdutils.h"
 #include "futils/mbox.h"
+#include "futils/timetools.h"
 
 #define ULOG_TAG mbox
 #include <ulog.h>
@@ -116,10 +117,27 @@ int mbox_push(struct mbox *box, const void *msg)
 	return (ret < 0) ? -errno : 0;
 }
 
+/* Milliseconds left before a monotonic date, rounded up */
+static int mbox_time_left(const struct timespec *deadline, int *timeout)
+{
+	int ret;
+	struct timespec now, left;
+	uint64_t left_ns = 0;
+
+	ret = time_get_monotonic(&now);
+	if (ret < 0)
+		return ret;
+	if (time_timespec_diff(&now, deadline, &left) == 0)
+		time_timespec_to_ns(&left, &left_ns);
+	*timeout = (int)((left_ns + 999999) / 1000000);
+	return 0;
+}
+
 int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 {
 	int res;
 	int timeout;
+	struct timespec deadline;
 
 	if (!msg || !box)
 		return -EINVAL;
@@ -127,9 +145,16 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 	if (timeout_ms > INT_MAX)
 		return -EINVAL;
 	timeout = (timeout_ms == 0) ? -1 : (int)timeout_ms;
+	if (timeout_ms != 0) {
+		res = time_get_monotonic(&deadline);
+		if (res < 0)
+			return res;
+		time_timespec_add_us(&deadline, (int64_t)timeout_ms * 1000,
+				     &deadline);
+	}
 
 	/* Block until we have at least PIPE_BUF bytes in the pipe */
-	do {
+	while (1) {
 		struct pollfd pfd = {
 			.fd = box->fds[1],
 			.events = POLLOUT,
@@ -137,18 +162,31 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 		};
 
 		res = poll(&pfd, 1, timeout);
-	} while (res == -1 && errno == EINTR);
-
-	if (res == 0)
-		return -ETIMEDOUT;
-	if (res == -1)
-		return -errno;
-	/* When poll indicates that the write will not block, it means that at
-	 * least PIPE_BUF bytes can be written without blocking, or that an
-	 * error occured on the file descriptor, in which case the write is
-	 * expected to fail.
-	 */
-	return mbox_push(box, msg);
+		if (res == 0)
+			return -ETIMEDOUT;
+		if (res == -1 && errno != EINTR)
+			return -errno;
+
+		/* When poll indicates that the write will not block, it means
+		 * that at least PIPE_BUF bytes can be written without blocking
+		 * unless another producer does it first, or that an error
+		 * occured on the file descriptor, in which case the write is
+		 * expected to fail.
+		 */
+		if (res > 0) {
+			res = mbox_push(box, msg);
+			if (res != -EAGAIN)
+				return res;
+		}
+
+		/* Interrupted, or outrun by another producer: wait again, for
+		 * the remaining time only */
+		if (timeout_ms != 0) {
+			res = mbox_time_left(&deadline, &timeout);
+			if (res < 0)
+				return res;
+		}
+	}
 }
 
 int mbox_peek(struct mbox *box, void *msg)
-- 
2.43.0


From 952cabc37ab926fd81941478530ac3c5f7e9e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 23/24] fix: fs: no leak and no wrong result when out of memory

---
 src/fs.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fs.cpp b/src/fs.cpp
index 9c01f08..4df354d 100644
--- a/src/fs.cpp
+++ b/src/fs.cpp
@@ -47,10 +47,9 @@ namespace fs
 
 std::string dirname(const std::string &path)
 {
-	char *str = strdup(path.c_str());
-	std::string res(::dirname(str));
-	free(str);
-	return res;
+	/* modifiable copy of the path */
+	std::string str(path.c_str());
+	return std::string(::dirname(&str[0]));
 }
 
 /* libgen.h redefine basename to __xpg_basename, if we want to have the correct
@@ -66,10 +65,9 @@ static char *wrap_basename(char *path)
 
 std::string basename(const std::string &path)
 {
-	char *str = strdup(path.c_str());
-	std::string res(wrap_basename(str));
-	free(str);
-	return res;
+	/* modifiable copy of the path */
+	std::string str(path.c_str());
+	return std::string(wrap_basename(&str[0]));
 }
 
 }
-- 
2.43.0


From 0ffb680d179e3c69774a4080cd0e57438a0a9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:46 +0000
Subject: [PATCH 24/24] fix: make varint.h usable alone and from C++

It declared its functions with uint8_t and size_t without including what
defines them, and without C linkage: a file including it first did not
compile, and C++ code using it did not link.
---
 include/futils/varint.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/futils/varint.h b/include/futils/varint.h
index 5240d5f..ef05c0a 100644
--- a/include/futils/varint.h
+++ b/include/futils/varint.h
@@ -30,6 +30,16 @@
  *
  *****************************************************************************/
 
+#ifndef _FUTILS_VARINT_H_
+#define _FUTILS_VARINT_H_
+
+#include <stddef.h>
+#include <stdint.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
 /**
  * Reads a variable unsigned integer from data.
  *
@@ -197,3 +207,9 @@ int futils_varint_read_i64(const uint8_t *src, size_t src_len,
  */
 int futils_varint_write_i64(uint8_t *dst, size_t dst_len,
 		int64_t val, size_t *val_len);
+
+#ifdef __cplusplus
+}
+#endif
+
+#endif /* _FUTILS_VARINT_H_ */
-- 
2.43.0

