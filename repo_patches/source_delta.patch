From 19f782baccc8784c2a38a31d9f4317f272c8dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 01/21] fix: detect int overflow without overflowing, and stop
 summing in strbuf_cat() once it would

---
 strbuf.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index ebce1da..a23db57 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -598,8 +598,9 @@ static strview_t buffer_vcat(strbuf_t** buf_ptr, int n_args, va_list va)
 	while(i++ != n_args)
 	{
 		str = va_arg(va, strview_t);
-		failed |= add_will_overflow_int(size_needed, str.size);
-		size_needed += str.size;
+		failed = failed || add_will_overflow_int(size_needed, str.size);
+		if(!failed)
+			size_needed += str.size;
 		tmp_buf_needed |= buf_contains_str(dst_buf, str);
 	};
 
@@ -790,9 +791,7 @@ static void empty_buf(strbuf_t* buf)
 
 static bool add_will_overflow_int(int a, int b)
 {
-	int c = a;
-	c += b;
-	return ((a < 0) == (b < 0) && (a < 0) != (c < 0));
+	return b >= 0 ? a > INT_MAX - b : a < INT_MIN - b;
 }
 
 static bool view_contains_char(strview_t view, char c)
-- 
2.43.0


From 33e5f37cc80d0db4ec18f9ae1436cd2f32b368b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 02/21] fix: empty the buffer when vsnprintf() reports an error

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index a23db57..c75c82c 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -211,7 +211,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		size = buf->size;
 		append_size = vsnprintf(NULL, 0, format, va);
 
-		failed = add_will_overflow_int(size, append_size);
+		failed = append_size < 0 || add_will_overflow_int(size, append_size);
 		if(!failed)
 		{
 			size += append_size;
-- 
2.43.0


From 179face6b8c506ea875af8894fc872b9e93baaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 03/21] fix: size calculations overflow int for buffers near
 INT_MAX

---
 strbuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index c75c82c..566a2cf 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -222,7 +222,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);
 		else
 			empty_buf(buf);
 
@@ -376,7 +376,7 @@ char* strbuf_to_cstr(strbuf_t** buf_ptr)
 			allocator = (*buf_ptr)->allocator;
 			str = (void*)(*buf_ptr);
 			memmove(str, (*buf_ptr)->cstr, len);
-			str = allocator.allocator(&allocator, str, len+1);
+			str = allocator.allocator(&allocator, str, (size_t)len+1);
 		}
 		else
 			str = (*buf_ptr)->cstr;
-- 
2.43.0


From 7818aef224189c268cdcbfdc1884448ff8fa4f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 04/21] fix: an invalid view does not match a valid view of
 length 0

---
 strview.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 4edea19..3f94c07 100644
--- a/strview.c
+++ b/strview.c
@@ -65,7 +65,7 @@ void strview_swap(strview_t* a, strview_t* b)
 
 bool strview_is_match_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
+	return (strview_is_valid(str1) == strview_is_valid(str2)) && (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_cstr(strview_t str1, const char* str2)
@@ -75,7 +75,7 @@ bool strview_is_match_cstr(strview_t str1, const char* str2)
 
 bool strview_is_match_nocase_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
+	return (strview_is_valid(str1) == strview_is_valid(str2)) && (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_nocase_cstr(strview_t str1, const char* str2)
-- 
2.43.0


From 1a6eb33fb770c42e5be075fe19f95c2b4c296215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 05/21] fix: strview_split_line() modified the source when no
 line ending was found

---
 strview.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/strview.c b/strview.c
index 3f94c07..78cc4db 100644
--- a/strview.c
+++ b/strview.c
@@ -325,11 +325,8 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 				*eol = e;
 			*strview_ptr = src;
 		}
-		else	//a line ending was not found, restore the source, and return an invalid strview_t
-		{
-			*strview_ptr = result;
+		else	//a line ending was not found, leave the source unmodified, and return an invalid strview_t
 			result = STRVIEW_INVALID;
-		};
 	};
 	return result;
 }
-- 
2.43.0


From de88055a6b422b4158498b3380dfa1b68eb07472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 06/21] fix: strview_dequote() removed any matching pair of
 characters

---
 strview.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strview.c b/strview.c
index 78cc4db..9c37481 100644
--- a/strview.c
+++ b/strview.c
@@ -505,11 +505,12 @@ static strview_t split_index(strview_t* strview_ptr, int index)
 strview_t strview_dequote(strview_t src)
 {
 	strview_t result = src;
-	char quote_char;
+	char quote_char = 0;
 
 	if(result.size > 1)
 		quote_char = result.data[0];
 	while( 	(result.size > 1)
+	 && 	(quote_char == '\"' || quote_char == '\'')
 	 && 	(result.data[0] == quote_char)
 	 && 	(result.data[result.size-1] == quote_char) )
 		result = strview_sub(result, 1, -1);
-- 
2.43.0


From 52ba178232057a78f3025c9a73981bb62bb96fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 07/21] fix: strnum_consume_float() dereferenced a NULL source

---
 strnum.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index 3a5fc3b..a8374e6 100644
--- a/strnum.c
+++ b/strnum.c
@@ -321,10 +321,9 @@ int strnum_consume_float(float* dst, strview_t* src, int options)
 	};
 
 	if(src)
-	{
 		fc.num = *src;
-		err = process_float_components(&fc);
-	};
+
+	err = process_float_components(&fc);
 
 	// calculate/determine output value
 	if(!err && fc.special_value)
-- 
2.43.0


From 9c067b7a80d9d2457b03f73b7c14b31a4224850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 08/21] fix: recognise "infinity"

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index a8374e6..4df935c 100644
--- a/strnum.c
+++ b/strnum.c
@@ -513,7 +513,7 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinty"))
+	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
 		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-- 
2.43.0


From 61457ac2c411096f6ee45eb9251face23200e967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 09/21] fix: scale of floating point values with many integral
 digits

---
 strnum.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strnum.c b/strnum.c
index 4df935c..a5bd454 100644
--- a/strnum.c
+++ b/strnum.c
@@ -553,8 +553,7 @@ static int consume_exponent(float_components_t* fc)
 	while(integral_digits.size)													\
 	{																			\
 		consume_decimal_digits(&ull, &integral_digits);							\
-		result += (typ)ull;														\
-		result *= powfunc(10, integral_digits.size);							\
+		result += (typ)ull * powfunc(10, integral_digits.size);					\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
-- 
2.43.0


From 3173882dc8b9e35ac14c490972e681c486fa0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 10/21] fix: zero with a large exponent became NAN

---
 strnum.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index a5bd454..29eabce 100644
--- a/strnum.c
+++ b/strnum.c
@@ -565,7 +565,8 @@ static int consume_exponent(float_components_t* fc)
 		fractional_part *= powfunc(10, fractional_power);						\
 		result += fractional_part;												\
 	};																			\
-	result *= powfunc(10, exp_value);											\
+	if(result != 0)																\
+		result *= powfunc(10, exp_value);										\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
-- 
2.43.0


From a006d5979fb7477ebe2e85a0f7020a4084b2a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 11/21] fix: characters 0xB0 and 0xB1 were accepted as binary
 digits

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 29eabce..8002764 100644
--- a/strnum.c
+++ b/strnum.c
@@ -886,7 +886,7 @@ static int xdigit_value(char c)
 
 static bool isbdigit(char c)
 {
-	return (c & 0x7E) == 0x30;
+	return c == '0' || c == '1';
 }
 
 static strview_t split_digits(strview_t* src)
-- 
2.43.0


From 370eb6843b83952dc7efec6e88112329b26dafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 12/21] fix: do not pass negative values to isdigit() and
 isxdigit()

---
 strnum.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/strnum.c b/strnum.c
index 8002764..456096e 100644
--- a/strnum.c
+++ b/strnum.c
@@ -758,7 +758,7 @@ static int consume_decimal_digits(unsigned long long* dst, strview_t* str)
 	unsigned long long post_add;
 	unsigned long long next_weight;
 
-	if(str->size && isdigit(str->data[0]))
+	if(str->size && isdigit((unsigned char)str->data[0]))
 		err = 0;
 	else
 		err = EINVAL;
@@ -766,19 +766,19 @@ static int consume_decimal_digits(unsigned long long* dst, strview_t* str)
 	if(!err)
 	{
 		*str = strview_trim_start(*str, "0");
-		while(str->size && isdigit(str->data[0]) && res_ui < UI_LIMIT)
+		while(str->size && isdigit((unsigned char)str->data[0]) && res_ui < UI_LIMIT)
 		{
 			res_ui *= 10;
 			res_ui += strview_pop_first_char(str) & 0x0F;
 		};
 		res_ul = res_ui;
-		while(str->size && isdigit(str->data[0]) && res_ul < UL_LIMIT)
+		while(str->size && isdigit((unsigned char)str->data[0]) && res_ul < UL_LIMIT)
 		{
 			res_ul *= 10;
 			res_ul += strview_pop_first_char(str) & 0x0F;
 		};
 		res_ull = res_ul;
-		while(str->size && isdigit(str->data[0]) && !err)
+		while(str->size && isdigit((unsigned char)str->data[0]) && !err)
 		{
 			if(res_ull > ULLONG_MAX/10)	// if number is too big to multiply by 10, ERANGE
 				err = ERANGE;
@@ -811,7 +811,7 @@ static int consume_hex_digits(unsigned long long* dst, strview_t* str)
 	unsigned long long result = 0;
 	int err;
 
-	if(str->size && isxdigit(str->data[0]))
+	if(str->size && isxdigit((unsigned char)str->data[0]))
 	{
 		err = 0;
 		*str = strview_trim_start(*str, "0");
@@ -819,7 +819,7 @@ static int consume_hex_digits(unsigned long long* dst, strview_t* str)
 	else
 		err = EINVAL;
 
-	while(str->size && isxdigit(str->data[0]) && !err)
+	while(str->size && isxdigit((unsigned char)str->data[0]) && !err)
 	{
 		if(!upper_nibble_ull_is_zero(result))
 			err = ERANGE;
@@ -892,11 +892,11 @@ static bool isbdigit(char c)
 static strview_t split_digits(strview_t* src)
 {
 	strview_t result = STRVIEW_INVALID;
-	if(src && src->size && isdigit(src->data[0]))
+	if(src && src->size && isdigit((unsigned char)src->data[0]))
 	{
 		result.data = src->data;
 		result.size = 0;
-		while(src->size && isdigit(src->data[0]))
+		while(src->size && isdigit((unsigned char)src->data[0]))
 		{
 			strview_pop_first_char(src);
 			result.size++;
-- 
2.43.0


From 828a366d2036366582e2a63e00abb87e2391c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 13/21] fix: strnum_value() did not compile with STRNUM_NOFLOAT

---
 strnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.h b/strnum.h
index 6c12da4..b92a97b 100644
--- a/strnum.h
+++ b/strnum.h
@@ -115,7 +115,7 @@
 		short*:					strnum_consume_short,\
 		int*:					strnum_consume_int,\
 		long*:					strnum_consume_long,\
-		long long*:				strnum_consume_llong,\
+		long long*:				strnum_consume_llong\
 		)(dst, src, opt)
 	#endif
 
-- 
2.43.0


From 011c5d99542cb717e3f15e66940ee23caa835887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 14/21] fix: strbuf_encrypt() and strbuf_decrypt() always
 returned an invalid view

---
 accessories/strbuf_crypt/strbuf_crypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1886074..495fa25 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -70,11 +70,13 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		}
 		else if(buf->capacity >= cypher_size(buf->size))
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		};
 		*buf_ptr = buf;	
 	};
-- 
2.43.0


From 7c592c09b3128e59f9a4b33368295383e130f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 15/21] fix: strbuf_decrypt() used the last byte as a size
 without checking it

---
 accessories/strbuf_crypt/strbuf_crypt.c | 33 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 495fa25..f8711b3 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -33,6 +33,7 @@
 	static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx);
 	static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx);
 	static int cypher_size(int content_size);
+	static strview_t set_size(strbuf_t* buf, int out_len);
 	static int encdec_with_ctx_on_stack(encdec_fptr_t fptr, uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16]);
 	static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16]);
 
@@ -59,6 +60,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	strview_t retval = STRVIEW_INVALID;
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
+	int out_len;
 
 	if(buf_ptr && *buf_ptr)
 	{
@@ -67,16 +69,14 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		{
 			strbuf_grow(&buf, cypher_size(buf->size));
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
-			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
+			out_len = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-			buf->cstr[buf->size] = 0;
-			retval = strbuf_view(&buf);
+			retval = set_size(buf, out_len);
 		}
 		else if(buf->capacity >= cypher_size(buf->size))
 		{
-			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
-			buf->cstr[buf->size] = 0;
-			retval = strbuf_view(&buf);
+			out_len = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
+			retval = set_size(buf, out_len);
 		};
 		*buf_ptr = buf;	
 	};
@@ -84,6 +84,15 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	return retval;
 }
 
+// set the size of the buffer to out_len, or empty it if out_len is negative (failed)
+// returns a view of the buffer, or an invalid view on failure
+static strview_t set_size(strbuf_t* buf, int out_len)
+{
+	buf->size = out_len < 0 ? 0 : out_len;
+	buf->cstr[buf->size] = 0;
+	return out_len < 0 ? STRVIEW_INVALID : strbuf_view(&buf);
+}
+
 static int encdec_with_ctx_on_stack(encdec_fptr_t fptr, uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16])
 {
 	aes256_ctx_t ctx;
@@ -115,12 +124,12 @@ static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 
 // decrypt buf, using 256bit key and 128bit init vector.
 // len must be a multiple of 16
-// returns the size of the decoded output in bytes
+// returns the size of the decoded output in bytes, or -1 if len is not a multiple of 16 or the padding is not valid
 static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)
 {
 	int block_count = len/AES_BLOCK_SIZE;
-	int out_len;
-	int pad_len;
+	int out_len = -1;
+	int pad_len = 0;
 	uint8_t buf1[AES_BLOCK_SIZE];
 	uint8_t buf2[AES_BLOCK_SIZE];
 	uint8_t (*this_xor)[AES_BLOCK_SIZE] = &buf1;
@@ -137,8 +146,10 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 		swap(this_xor, next_xor);
 	};
 
-	pad_len = buf[-1];
-	out_len = len - pad_len;
+	if(len >= AES_BLOCK_SIZE && len % AES_BLOCK_SIZE == 0)
+		pad_len = buf[-1];
+	if(pad_len >= 1 && pad_len <= AES_BLOCK_SIZE)
+		out_len = len - pad_len;
 
 	return out_len;
 }
-- 
2.43.0


From 1771627948bda4e2bccf4df669c9525e8f1a7f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 16/21] fix: strbuf_decrypt() needed a fixed buffer 16 bytes
 larger than its content

---
 accessories/strbuf_crypt/strbuf_crypt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index f8711b3..f4aa7cd 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -61,19 +61,21 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
 	int out_len;
+	int size_needed;
 
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
+		size_needed = fptr == enc256cbc ? cypher_size(buf->size) : buf->size;
 		if(buf->allocator.allocator)
 		{
-			strbuf_grow(&buf, cypher_size(buf->size));
+			strbuf_grow(&buf, size_needed);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			out_len = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			retval = set_size(buf, out_len);
 		}
-		else if(buf->capacity >= cypher_size(buf->size))
+		else if(buf->capacity >= size_needed)
 		{
 			out_len = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			retval = set_size(buf, out_len);
-- 
2.43.0


From f9e63b4b6f58cf51874d3a4b9a50b81e8ca66f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 17/21] fix: size of the encrypted output overflowed int for
 content near INT_MAX

---
 accessories/strbuf_crypt/strbuf_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index f4aa7cd..d052287 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -5,6 +5,7 @@
 	https://en.wikipedia.org/wiki/Block_cipher_mode_of_operation#Cipher_block_chaining_(CBC)
 */
 	#include <stdint.h>
+	#include <limits.h>
 
 	#include "strbuf.h"
 	#include "strview.h"
@@ -63,7 +64,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	int out_len;
 	int size_needed;
 
-	if(buf_ptr && *buf_ptr)
+	if(buf_ptr && *buf_ptr && (fptr != enc256cbc || (*buf_ptr)->size <= INT_MAX - AES_BLOCK_SIZE))
 	{
 		buf = *buf_ptr;
 		size_needed = fptr == enc256cbc ? cypher_size(buf->size) : buf->size;
-- 
2.43.0


From ebbddac723a3e0a768299982a4a1e476c9a53a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 18/21] fix: strbuf_append_vprnf() relied on signed overflow

---
 strbuf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index 566a2cf..5c7b45a 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -287,14 +287,15 @@ strview_t strbuf_append_vprnf(strbuf_t** buf_ptr, const char* format, va_list va
 	strbuf_t* buf;
 	strview_t str = STRVIEW_INVALID;
 	int char_count;
+	int size;
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
 
-		char_count = buf->size;
-		char_count += vfptrprnf(char_handler_for_prnf, &buf,  format, va);
+		size = buf->size;
+		char_count = vfptrprnf(char_handler_for_prnf, &buf,  format, va);
 
-		if(char_count > buf->size || char_count < 0)
+		if(add_will_overflow_int(size, char_count) || size + char_count > buf->size)
 			empty_buf(buf);
 
 		str = strbuf_view(&buf);
-- 
2.43.0


From 85d8f3af99e1947a3492d707e5ee862b353211cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:27 +0000
Subject: [PATCH 19/21] fix: STRBUF_PACK_LE/BE packed garbage from a variable
 called tmp

---
 accessories/strbuf_pack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_pack.h b/accessories/strbuf_pack.h
index 8e9f16b..d8b3f28 100644
--- a/accessories/strbuf_pack.h
+++ b/accessories/strbuf_pack.h
@@ -16,10 +16,10 @@
 //********************************************************************************************************
 
 //	Pack integer types little endian into buffer
-	#define STRBUF_PACK_LE(dst, src) do {typeof(src) tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_LE(dst, src) do {typeof(src) _strbuf_pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_strbuf_pack_tmp, .size=sizeof(_strbuf_pack_tmp)});}while(0)
 
 //	Pack integer types big endian into buffer
-	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_BE(dst, src) do {typeof(src) _strbuf_pack_tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_strbuf_pack_tmp, .size=sizeof(_strbuf_pack_tmp)});}while(0)
 
 //********************************************************************************************************
 // Public prototypes
-- 
2.43.0


From c2cb0f1ab98fb2c91c851c8372625a9a9ea2be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:53 +0000
Subject: [PATCH 20/21] fix: strview_unpack.h used INT_MAX without including
 limits.h

---
 accessories/strview_unpack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accessories/strview_unpack.h b/accessories/strview_unpack.h
index 51f2b13..981aec6 100644
--- a/accessories/strview_unpack.h
+++ b/accessories/strview_unpack.h
@@ -8,6 +8,7 @@
 #ifndef _STRVIEW_UNPACK_H_
 	#define _STRVIEW_UNPACK_H_
 
+	#include <limits.h>
 	#include "string.h"
 	#include "strview.h"
 	#include "xendian.h"
-- 
2.43.0


From e3884eca1b156e34964f29fd7a8c88c0393bf544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:06 +0000
Subject: [PATCH 21/21] fix: the AES key schedule rotated words the wrong way
 on big-endian machines

---
 accessories/strbuf_crypt/aes/aes_keyschedule.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/aes/aes_keyschedule.c b/accessories/strbuf_crypt/aes/aes_keyschedule.c
index 80a5598..c913e79 100644
--- a/accessories/strbuf_crypt/aes/aes_keyschedule.c
+++ b/accessories/strbuf_crypt/aes/aes_keyschedule.c
@@ -51,7 +51,7 @@ const uint8_t rc_tab[] = {
 
 void aes_init(const void* key, uint16_t keysize_b, aes_genctx_t* ctx){
 	uint8_t hi,i,nk, next_nk;
-	uint8_t rc=0;
+	uint8_t rc=0, first;
 	union __attribute__((packed)) {
 		uint32_t v32;
 		uint8_t  v8[4];
@@ -73,7 +73,11 @@ void aes_init(const void* key, uint16_t keysize_b, aes_genctx_t* ctx){
 		} else {
 			next_nk += nk;
 /*			aes_rotword(&(tmp.v32)); */
-			tmp.v32 = (tmp.v32 >> 8) | (tmp.v32 << 24);
+			first = tmp.v8[0];
+			tmp.v8[0] = tmp.v8[1];
+			tmp.v8[1] = tmp.v8[2];
+			tmp.v8[2] = tmp.v8[3];
+			tmp.v8[3] = first;
 			tmp.v8[0] = aes_sbox[tmp.v8[0]];
 			tmp.v8[1] = aes_sbox[tmp.v8[1]];
 			tmp.v8[2] = aes_sbox[tmp.v8[2]];
-- 
2.43.0

