#include "lanes.h"
#include <limits.h>
#include "strbuf.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
/* any value of type T */
#define ANY(T, v) T v; do { uint8_t any_[sizeof(T)]; for(unsigned i_ = 0; i_ < sizeof(T); i_++) any_[i_] = ob_byte(); memcpy(&v, any_, sizeof v); } while(0)
/* the bytes of a value by arithmetic, which does not depend on the byte order of the machine */
#define BYTES(T, v, want, be) do { for(unsigned i_ = 0; i_ < sizeof(T); i_++) want[be ? sizeof(T) - 1 - i_ : i_] = (uint64_t)(v) >> (8 * i_); } while(0)

static void* no_alloc(struct strbuf_allocator_t* self, void* p, size_t n)
{
	(void)self;
	ob_true(0, "the buffer has room, but memory is allocated");
	(void)p; (void)n;
	return NULL;
}
static strbuf_t* make(int n, int cap, bool dyn)
{
	strbuf_t* b = ob_object(sizeof(strbuf_t) + cap + 1);
	b->allocator.allocator = dyn ? no_alloc : NULL;
	b->size = n;
	b->capacity = cap;
	b->cstr[n] = 0;
	return b;
}
static void packed(strbuf_t* b, const uint8_t* old, int n, const uint8_t* want, int k)
{
	ob_true(b->size == n + k, "the content does not grow by the size of the value");
	ob_same(b->cstr, old, n, "the content before the value is modified");
	ob_same(b->cstr + n, want, k, "the bytes appended are not those of the value in the order asked for");
	ob_true(b->cstr[n + k] == 0, "the content is not terminated");
}
/* a value is packed behind n bytes of content; names that the macros might use for themselves must not matter */
#define PACK1(T, M, be, name, n, cap) do { \
	ANY(T, name); uint8_t want[8], old[20]; strbuf_t* b = make(n, cap, (n) & 1); \
	BYTES(T, name, want, be); memcpy(old, b->cstr, n); \
	T keep = name; \
	M(&b, name); \
	packed(b, old, n, want, sizeof(T)); \
	ob_same(&name, &keep, sizeof(T), "the value packed is modified"); } while(0)
#define PACK(id, T) \
	void h_pack_le_##id(void) { PACK1(T, STRBUF_PACK_LE, 0, value, 0, 8); PACK1(T, STRBUF_PACK_LE, 0, value, 3, 3 + (int)sizeof(T)); PACK1(T, STRBUF_PACK_LE, 0, tmp, 5, 30); ob_reached(); } \
	void h_pack_be_##id(void) { PACK1(T, STRBUF_PACK_BE, 1, value, 0, 8); PACK1(T, STRBUF_PACK_BE, 1, value, 3, 3 + (int)sizeof(T)); PACK1(T, STRBUF_PACK_BE, 1, tmp, 5, 30); ob_reached(); }
/* a value is taken from the front of a view, aligned or not */
#define UNPACK1(T, M, be, name, at, n) do { \
	uint8_t* mem_ = ob_object((at) + (n)); uint8_t keep_[40], bytes[8]; T name; strview_t v; \
	memcpy(keep_, mem_, (at) + (n)); \
	v.data = (const char*)mem_ + (at); v.size = n; \
	M(name, v); \
	BYTES(T, name, bytes, be); \
	ob_same(bytes, keep_ + (at), sizeof(T), "the value is not the one that the leading bytes of the view encode"); \
	ob_true(v.size == (n) - (int)sizeof(T), "the bytes of the value are not removed from the view"); \
	ob_true(v.size == 0 || v.data == (const char*)mem_ + (at) + sizeof(T), "the view does not start behind the value"); \
	ob_same(mem_, keep_, (at) + (n), "the bytes viewed are modified"); } while(0)
#define UNPACK(id, T) \
	void h_unpack_le_##id(void) { UNPACK1(T, STRVIEW_UNPACK_LE, 0, value, 0, 8); UNPACK1(T, STRVIEW_UNPACK_LE, 0, value, 1, 19); UNPACK1(T, STRVIEW_UNPACK_LE, 0, tmp, 3, (int)sizeof(T)); ob_reached(); } \
	void h_unpack_be_##id(void) { UNPACK1(T, STRVIEW_UNPACK_BE, 1, value, 0, 8); UNPACK1(T, STRVIEW_UNPACK_BE, 1, value, 1, 19); UNPACK1(T, STRVIEW_UNPACK_BE, 1, tmp, 3, (int)sizeof(T)); ob_reached(); }
/* the conversions themselves */
#define CONV(id, T) \
	void h_convert_##id(void) { ANY(T, v); uint8_t want[8]; T r; \
		r = xendian_pack_LE(v); BYTES(T, v, want, 0); ob_same(&r, want, sizeof r, "xendian_pack_LE() does not store the bytes in order of increasing weight"); \
		r = xendian_pack_BE(v); BYTES(T, v, want, 1); ob_same(&r, want, sizeof r, "xendian_pack_BE() does not store the bytes in order of decreasing weight"); \
		r = xendian_unpack_LE(xendian_pack_LE(v)); ob_same(&r, &v, sizeof r, "unpacking does not undo packing"); \
		r = xendian_unpack_BE(xendian_pack_BE(v)); ob_same(&r, &v, sizeof r, "unpacking does not undo packing"); \
		r = xendian_SWAP(xendian_SWAP(v)); ob_same(&r, &v, sizeof r, "swapping twice does not give back the value"); \
		int neg_ = xendian_SWAP(v) < 0, sig_ = (T)-1 < 0; if(!sig_) ob_true(!neg_, "the result for an unsigned type is negative"); \
		ob_reached(); }
#define ALL(id, T) PACK(id, T) UNPACK(id, T) CONV(id, T)
ALL(u8, uint8_t) ALL(i8, int8_t) ALL(u16, uint16_t) ALL(i16, int16_t) ALL(u32, uint32_t) ALL(i32, int32_t) ALL(u64, uint64_t) ALL(i64, int64_t)
