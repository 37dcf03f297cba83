/* C42: the value of a number and the limits of every integer type, for numbers of any digits, also longer than any type can hold. */
#include "numtext.h"
static int bits(void)
{
	static const int n[] = { 2, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65 };
	return n[sv_choice(12)];
}
#define COMMON(name, type) \
	text_t t; strview_t s; type dst, before = (type)sv_i64(); int err; \
	dst = before;
#define AFTER(name) \
	if(over) \
	{ \
		sv_check(err == ERANGE, "a number outside the limits of the type is not refused with ERANGE"); \
		sv_check(dst == before, "a failed conversion modified the destination"); \
		sv_check(UNTOUCHED(s, t.v), "a failed conversion modified the source"); \
	} \
	else \
	{ \
		sv_check(err == 0, "a number within the limits of the type is refused"); \
		sv_check(s.data == t.v.data + t.lead + t.digits && s.size == t.v.size - t.lead - t.digits, "not exactly the number has been consumed"); \
	}
#define UNS(name, type, lim_lo, lim_hi, base, tag, lead, nlead, opt, len) \
void b1_##tag##_##name(void) \
{ \
	COMMON(name, type) bool over; \
	t = number(base, lead, nlead, len); s = t.v; over = exceeds(t, lim_hi); \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(&dst, &s, opt); \
	AFTER(name) \
	if(!over) sv_check(dst == t.hi * t.unit + t.lo, "wrong value"); \
	sv_reach("end"); \
}
#define SIG(name, type, lim_lo, lim_hi, base, tag, lead, nlead, opt, len) \
void b1_##tag##_##name(void) \
{ \
	COMMON(name, type) bool over, neg = lead[0] == '-'; \
	t = number(base, lead, nlead, len); s = t.v; over = exceeds(t, neg ? (ull)-(lim_lo + 1) + 1 : (ull)lim_hi); \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(&dst, &s, opt); \
	AFTER(name) \
	if(!over) \
	{ \
		ull m = t.hi * t.unit + t.lo; \
		if(neg && m) { sv_check(dst < 0, "wrong sign"); sv_check((ull)-((long long)dst + 1) == m - 1, "wrong value"); } \
		else sv_check(dst >= 0 && (ull)dst == m, "wrong value"); \
	} \
	sv_reach("end"); \
}
#define DEC (1 + sv_choice(22))
#define HEX (1 + sv_choice(18))
#define U1(n, t, l, h) UNS(n, t, l, h, 10, dec, "", 0, 0, DEC)
#define S1(n, t, l, h) SIG(n, t, l, h, 10, dec, "", 0, 0, DEC)
#define S2(n, t, l, h) SIG(n, t, l, h, 10, decneg, "-", 1, 0, DEC)
#define U3(n, t, l, h) UNS(n, t, l, h, 16, hex, "0x", 2, 0, HEX)
#define S3(n, t, l, h) SIG(n, t, l, h, 16, hex, "0X", 2, STRNUM_NOSIGN, HEX)
#define S4(n, t, l, h) SIG(n, t, l, h, 16, hexneg, "-", 1, STRNUM_BASE_HEX, HEX)
#define U5(n, t, l, h) UNS(n, t, l, h, 2, bin, "0B", 2, 0, bits())
#define S5(n, t, l, h) SIG(n, t, l, h, 2, bin, " ", 1, STRNUM_BASE_BIN, bits())
#define S6(n, t, l, h) SIG(n, t, l, h, 2, binneg, "-0b", 3, STRNUM_NOSPACE, bits())
UNSIGNED_TYPES(U1)
SIGNED_TYPES(S1)
SIGNED_TYPES(S2)
UNSIGNED_TYPES(U3)
SIGNED_TYPES(S3)
SIGNED_TYPES(S4)
UNSIGNED_TYPES(U5)
SIGNED_TYPES(S5)
SIGNED_TYPES(S6)
