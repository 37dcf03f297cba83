#include "lanes.h"
#include "strbuf_crypt/aes/aes.h"
#include "strbuf_crypt/aes/gf256mul.h"
#include "strbuf_crypt/aes/memxor.h"
#include "aes_ref.h"
extern const uint8_t aes_sbox[256];
extern const uint8_t aes_invsbox[256];
static void schedule(int words, void (*init)(const void*, void*))
{
	uint8_t* key = ob_object(4 * words), *ctx = ob_object(16 * (words + 7)), want[240], keep[32];
	ref_init();
	memcpy(keep, key, 4 * words);
	ref_expand(key, words, want);
	init(key, ctx);
	ob_same(ctx, want, 16 * (words + 7), "the round keys are not those of FIPS 197");
	ob_same(key, keep, 4 * words, "the key is modified");
	ob_reached();
}
void h_schedule_256(void) { schedule(8, (void (*)(const void*, void*))aes256_init); }
void h_schedule_192(void) { schedule(6, (void (*)(const void*, void*))aes192_init); }
void h_schedule_128(void) { schedule(4, (void (*)(const void*, void*))aes128_init); }
void h_encrypt_block(void)
{
	uint8_t* key = ob_object(32), *block = ob_object(16), *ctx = ob_object(240), want[16], w[240], keep[240];
	ref_init();
	ref_expand(key, 8, w);
	memcpy(want, block, 16);
	ref_encrypt(want, w, 14);
	aes256_init(key, (aes256_ctx_t*)ctx);
	memcpy(keep, ctx, 240);
	aes256_enc(block, (aes256_ctx_t*)ctx);
	ob_same(block, want, 16, "the block is not the AES-256 encryption of FIPS 197");
	ob_same(ctx, keep, 240, "encryption modifies the round keys");
	ob_reached();
}
void h_decrypt_block(void)
{
	uint8_t* key = ob_object(32), *block = ob_object(16), *ctx = ob_object(240), want[16], w[240], keep[240];
	ref_init();
	ref_expand(key, 8, w);
	memcpy(want, block, 16);
	ref_encrypt(block, w, 14);
	aes256_init(key, (aes256_ctx_t*)ctx);
	memcpy(keep, ctx, 240);
	aes256_dec(block, (aes256_ctx_t*)ctx);
	ob_same(block, want, 16, "decryption does not give back the block that was encrypted");
	ob_same(ctx, keep, 240, "decryption modifies the round keys");
	ob_reached();
}
void h_sboxes(void)
{
	ref_init();
	ob_same(aes_sbox, ref_s, 256, "the substitution box is not that of FIPS 197");
	ob_same(aes_invsbox, ref_is, 256, "the inverse substitution box is not that of FIPS 197");
	ob_reached();
}
void h_gf256mul(void)
{
	int a, k;
	uint8_t b = ob_byte(), got, want;
	ref_init();
	for(a = 0; a < 256; a++)
	{
		uint8_t p = b;
		want = 0;
		for(k = 0; k < 8; k++) { if(a >> k & 1) want ^= p; p = ref_x2[p]; }
		got = gf256mul(a, b, 0x1b);
		ob_same(&got, &want, 1, "gf256mul() is not multiplication in GF(2^8)");
	}
	ob_reached();
}
void h_memxor(void)
{
	int n, i;
	for(n = 0; n < 40; n++)
	{
		uint8_t* d = ob_object(n), *s = ob_object(n), want[40], keep[40];
		for(i = 0; i < n; i++) { want[i] = d[i] ^ s[i]; keep[i] = s[i]; }
		memxor(d, s, n);
		ob_same(d, want, n, "memxor() is not the exclusive or of the bytes");
		ob_same(s, keep, n, "memxor() modifies its source");
	}
	ob_reached();
}
