/* C53: encryption and decryption of buffers of every size and capacity: memory, size, result, allocator.
   The cipher itself is replaced by what C51 proves about it: it touches exactly the 16 bytes of the block, the 32 bytes of
   the key and the 240 bytes of the round keys. */
#include "buf.h"
#include "strbuf_crypt/strbuf_crypt.h"
#include "strbuf_crypt/aes/aes.h"
static uint8_t *key, *iv;
void aes256_init(const void* k, aes256_ctx_t* ctx)
{
	sv_check(k == key, "the key schedule is made from something else than the key");
	sv_check(((const char*)k)[31] == ((const char*)k)[31], "");
	sv_bytes(ctx, 240);
	sv_event(5);
}
void aes256_enc(void* block, aes256_ctx_t* ctx) { sv_check(sv_count(5) == 1, "the round keys are used before they are made"); sv_bytes(ctx, 1); sv_bytes((char*)ctx + 239, 1); sv_bytes(block, 16); }
void aes256_dec(void* block, aes256_ctx_t* ctx) { aes256_enc(block, ctx); }
static void start(void) { key = (uint8_t*)sv_ext(32, 1, "key"); iv = (uint8_t*)sv_ext(16, 1, "initialization vector"); }
static void intact(strbuf_t* b, strbuf_t* o, int size, int cap, int old, strview_t r)
{
	sv_check(IS_INVALID(r), "a buffer that cannot hold the result has to give the invalid view");
	sv_check(b == o && b->size == size && b->capacity == cap, "a buffer that cannot hold the result has to be left alone");
	sv_content(b->cstr, size, "the content of a buffer that cannot hold the result is modified", 1, PART(old, 0, size));
	sv_check(b->cstr[size] == 0, "the content is not terminated");
}
static void good(strbuf_t* b, strview_t r)
{
	sv_check(r.data == b->cstr && r.size == b->size, "the view returned is not that of the content");
	sv_check(b->size >= 0 && b->size <= b->capacity, "the content is larger than the capacity");
	sv_check(b->cstr[b->size] == 0, "the content is not terminated");
}
static void enc(strbuf_t* b)
{
	strbuf_t* o = b;
	int size = b->size, cap = b->capacity, old = SNAP(b->cstr, size);
	bool dyn = is_dyn(b);
	strview_t r;
	start();
	r = strbuf_encrypt(&b, key, iv);
	if(size > INT_MAX - 16) intact(b, o, size, cap, old, r);
	else if(!dyn && cap < (size / 16 + 1) * 16) intact(b, o, size, cap, old, r);
	else
	{
		good(b, r);
		sv_check(b->size == (size / 16 + 1) * 16, "the result is not the content and 1 to 16 bytes of padding, in whole blocks");
		sv_check(dyn || (b == o && b->capacity == cap), "a fixed buffer was moved or resized");
	}
	sv_check(sv_live() == (dyn ? 1 : 0), "the context of the cipher is not given back");
	sv_reach("end");
}
void h_encrypt_fixed(void) { enc(fix_buf()); }
void h_encrypt_dynamic(void) { enc(dyn_buf()); }
static void dec(strbuf_t* b)
{
	strbuf_t* o = b;
	int size = b->size, cap = b->capacity;
	bool dyn = is_dyn(b);
	strview_t r;
	start();
	r = strbuf_decrypt(&b, key, iv);
	if(size < 16 || size % 16 != 0) sv_check(IS_INVALID(r), "content that is not a number of whole blocks has to give the invalid view");
	if(IS_INVALID(r))
	{
		sv_check(b->size == 0 && b->cstr[0] == 0, "the buffer has to be empty after a failure");
		sv_check(b->size <= b->capacity, "the content is larger than the capacity");
	}
	else
	{
		good(b, r);
		sv_check(b->size >= size - 16 && b->size < size, "decryption removes 1 to 16 bytes of padding");
	}
	sv_check(dyn || (b == o && b->capacity == cap), "a fixed buffer was moved or resized");
	sv_check(b->capacity >= cap, "the capacity is reduced");
	sv_check(sv_live() == (dyn ? 1 : 0), "the context of the cipher is not given back");
	sv_reach("end");
}
void h_decrypt_fixed(void) { dec(fix_buf()); }
void h_decrypt_dynamic(void) { dec(dyn_buf()); }
void h_null(void)
{
	strbuf_t* none = NULL;
	start();
	sv_check(IS_INVALID(strbuf_encrypt(NULL, key, iv)) && IS_INVALID(strbuf_encrypt(&none, key, iv)), "encrypting no buffer");
	sv_check(IS_INVALID(strbuf_decrypt(NULL, key, iv)) && IS_INVALID(strbuf_decrypt(&none, key, iv)), "decrypting no buffer");
	sv_check(none == NULL, "the pointer is modified");
	sv_reach("end");
}
