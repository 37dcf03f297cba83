#include "lanes.h"
#include "strbuf.h"
#include "strbuf_crypt/strbuf_crypt.h"
#include "aes_ref.h"
/* an allocator in which every block is an object of its own */
static int live;
static size_t sizes[40]; static void* blocks[40]; static int nblocks;
static void* spec_alloc(struct strbuf_allocator_t* self, void* p, size_t n)
{
	void* r = NULL;
	int i, at = -1;
	for(i = 0; i < nblocks; i++) if(p && blocks[i] == p) at = i;
	ob_true(!p || at >= 0, "the allocator is given a block it does not own");
	if(n)
	{
		r = ob_object(n);
		if(p) memcpy(r, p, sizes[at] < n ? sizes[at] : n);
		blocks[nblocks] = r; sizes[nblocks++] = n; live++;
	}
	if(p) { blocks[at] = NULL; live--; }
	return r;
}
static strbuf_allocator_t al = {.allocator = spec_alloc};
static uint8_t *key, *iv, keep_key[32], keep_iv[16];
static void setup(void)
{
	ref_init();
	key = ob_object(32); iv = ob_object(16);
	memcpy(keep_key, key, 32); memcpy(keep_iv, iv, 16);
}
static strbuf_t* make(bool dyn, int n, int cap)
{
	strbuf_t* b;
	if(dyn) { b = spec_alloc(&al, NULL, sizeof(strbuf_t) + cap + 1); b->allocator = al; }
	else { b = ob_object(sizeof(strbuf_t) + cap + 1); b->allocator.allocator = NULL; }
	b->size = n;
	b->capacity = cap;
	b->cstr[n] = 0;
	return b;
}
static void finish(strbuf_t* b, strview_t r, const uint8_t* want, int n, bool dyn)
{
	ob_true(b->size == n && r.size == n && r.data == b->cstr, "the view returned is not the content of the buffer");
	ob_true(b->capacity >= n, "the content is larger than the capacity");
	ob_same(b->cstr, want, n, "the content is not what AES-256 in CBC mode with PKCS#7 padding gives");
	ob_true(b->cstr[n] == 0, "the content is not terminated");
	ob_same(key, keep_key, 32, "the key is modified");
	ob_same(iv, keep_iv, 16, "the initialization vector is modified");
	ob_true(live == (dyn ? 1 : 0), "the context of the cipher is not given back to the allocator");
	ob_reached();
}
static void enc(bool dyn, int n, int cap)
{
	uint8_t want[80];
	strbuf_t* b;
	int m;
	strview_t r;
	setup();
	b = make(dyn, n, cap);
	m = ref_cbc(want, (uint8_t*)b->cstr, n, key, iv);
	r = strbuf_encrypt(&b, key, iv);
	finish(b, r, want, m, dyn);
}
static void dec(bool dyn, int n, bool roomy)
{
	uint8_t want[80], *c = ob_object(80);
	strbuf_t* b;
	int m;
	strview_t r;
	setup();
	for(m = 0; m < n; m++) want[m] = ob_byte();
	m = ref_cbc(c, want, n, key, iv);
	b = make(dyn, m, roomy ? m + 19 : m);
	memcpy(b->cstr, c, m);
	r = strbuf_decrypt(&b, key, iv);
	finish(b, r, want, n, dyn);
}
static void round_trip(bool dyn, int n)
{
	uint8_t want[80];
	strbuf_t* b;
	strview_t r;
	setup();
	b = make(dyn, n, dyn ? n : n + 16);
	memcpy(want, b->cstr, n);
	strbuf_encrypt(&b, key, iv);
	r = strbuf_decrypt(&b, key, iv);
	finish(b, r, want, n, dyn);
}
#define SIZES(n) \
	void h_encrypt_fixed_##n(void) { enc(false, n, (n / 16 + 1) * 16); } \
	void h_encrypt_dynamic_##n(void) { enc(true, n, n); } \
	void h_encrypt_roomy_##n(void) { enc(true, n, n + 40); } \
	void h_decrypt_fixed_##n(void) { dec(false, n, false); } \
	void h_decrypt_dynamic_##n(void) { dec(true, n, true); } \
	void h_round_trip_##n(void) { round_trip(n & 1, n); }
SIZES(0) SIZES(1) SIZES(2) SIZES(7) SIZES(14) SIZES(15) SIZES(16) SIZES(17) SIZES(30) SIZES(31) SIZES(32) SIZES(33) SIZES(47) SIZES(48) SIZES(49)
