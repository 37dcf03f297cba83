/* FIPS 197, written from the standard: everything is derived from the field definition. */
static uint8_t ref_s[256], ref_is[256], ref_x2[256], ref_x3[256];
static uint8_t ref_times2(uint8_t a) { return a & 0x80 ? (uint8_t)(a << 1) ^ 0x1b : a << 1; }
static void ref_init(void)
{
	uint8_t pow[256], inv[256];
	int i, x = 1, log[256];
	for(i = 0; i < 255; i++) { pow[i] = x; log[x] = i; x ^= ref_times2(x); }        /* 3 generates the field */
	inv[0] = 0;
	for(i = 1; i < 256; i++) inv[i] = pow[(255 - log[i]) % 255];
	for(i = 0; i < 256; i++)
	{
		unsigned b = inv[i], r = b ^ 0x63, k;
		for(k = 1; k < 5; k++) r ^= (b << k | b >> (8 - k)) & 255;
		ref_s[i] = r;
		ref_is[r] = i;
		ref_x2[i] = ref_times2(i);
		ref_x3[i] = ref_times2(i) ^ i;
	}
}
/* nk words of key -> 4 * (nk + 7) words */
static void ref_expand(const uint8_t* key, int nk, uint8_t* w)
{
	uint8_t t[4], x, rc = 1;
	int i, k;
	for(i = 0; i < 4 * nk; i++) w[i] = key[i];
	for(i = nk; i < 4 * (nk + 7); i++)
	{
		for(k = 0; k < 4; k++) t[k] = w[4 * (i - 1) + k];
		if(i % nk == 0)
		{
			x = t[0]; t[0] = ref_s[t[1]] ^ rc; t[1] = ref_s[t[2]]; t[2] = ref_s[t[3]]; t[3] = ref_s[x];
			rc = ref_times2(rc);
		}
		else if(nk > 6 && i % nk == 4) for(k = 0; k < 4; k++) t[k] = ref_s[t[k]];
		for(k = 0; k < 4; k++) w[4 * i + k] = w[4 * (i - nk) + k] ^ t[k];
	}
}
static void ref_encrypt(uint8_t* s, const uint8_t* w, int rounds)
{
	uint8_t t[16];
	int r, c, i;
	for(i = 0; i < 16; i++) s[i] ^= w[i];
	for(r = 1; r <= rounds; r++)
	{
		for(c = 0; c < 4; c++) for(i = 0; i < 4; i++) t[4 * c + i] = ref_s[s[4 * ((c + i) % 4) + i]];
		for(c = 0; c < 4; c++) for(i = 0; i < 4; i++)
		{
			uint8_t* a = t + 4 * c;
			uint8_t v = r == rounds ? a[i] : ref_x2[a[i]] ^ ref_x3[a[(i + 1) % 4]] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
			s[4 * c + i] = v ^ w[16 * r + 4 * c + i];
		}
	}
}
/* CBC with PKCS#7 padding; out holds (n / 16 + 1) * 16 bytes */
static int ref_cbc(uint8_t* out, const uint8_t* in, int n, const uint8_t* key, const uint8_t* iv)
{
	uint8_t w[240];
	int i, k, total = (n / 16 + 1) * 16;
	ref_expand(key, 8, w);
	for(i = 0; i < total; i++) out[i] = i < n ? in[i] : total - n;
	for(i = 0; i < total; i += 16)
	{
		for(k = 0; k < 16; k++) out[i + k] ^= i ? out[i - 16 + k] : iv[k];
		ref_encrypt(out + i, w, 14);
	}
	return total;
}
