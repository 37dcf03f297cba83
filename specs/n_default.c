/* C45: the functions that return a value: the number, or the default value where there is none the type can hold. */
#include "numtext.h"
#define SAME_AS(name, type, cname, ctype) \
void b3_##name(void) \
{ \
	strview_t o = any_view("text"), s = o; \
	type d = (type)sv_i64(), r; \
	ctype v; \
	int opt = sv_int(), err; \
	sv_assume(o.size <= 3); \
	err = strnum_consume_##cname(&v, &s, opt); \
	sv_api("strnum_" #name); \
	r = strnum_##name(o, d, opt); \
	sv_check(r == (err ? d : (type)v), "neither the number nor the default value"); \
	sv_reach("end"); \
}
SAME_AS(i8, int8_t, char, char) SAME_AS(i16, int16_t, short, short) SAME_AS(i32, int32_t, int, int) SAME_AS(i64, int64_t, llong, long long)
SAME_AS(char, char, char, char) SAME_AS(short, short, short, short) SAME_AS(int, int, int, int) SAME_AS(long, long, long, long) SAME_AS(llong, long long, llong, long long)
SAME_AS(u8, uint8_t, uchar, unsigned char) SAME_AS(u16, uint16_t, ushort, unsigned short) SAME_AS(u32, uint32_t, uint, unsigned int) SAME_AS(u64, uint64_t, ullong, unsigned long long)
SAME_AS(uchar, unsigned char, uchar, unsigned char) SAME_AS(ushort, unsigned short, ushort, unsigned short) SAME_AS(uint, unsigned int, uint, unsigned int) SAME_AS(ulong, unsigned long, ulong, unsigned long) SAME_AS(ullong, unsigned long long, ullong, unsigned long long)
#define LIMITS(name, type, lim_lo, lim_hi, is_signed) \
void b1_limit_##name(void) \
{ \
	text_t t; \
	type d = (type)sv_i64(), r; \
	bool neg = is_signed && sv_choice(2), over; \
	static const int len[] = { 1, 2, 3, 4, 5, 6, 9, 10, 11, 18, 19, 20, 21 }; \
	t = number(10, neg ? "-" : "", neg, len[sv_choice(13)]); \
	over = exceeds(t, neg ? (ull)-(lim_lo + 1) + 1 : (ull)lim_hi); \
	sv_api("strnum_" #name); \
	r = strnum_##name(t.v, d, 0); \
	if(over) sv_check(r == d, "a number the type cannot hold does not give the default value"); \
	else \
	{ \
		ull m = t.hi * t.unit + t.lo; \
		if(neg && m) { sv_check(r < 0, "wrong sign"); sv_check((ull)-((long long)r + 1) == m - 1, "wrong value"); } \
		else sv_check(r >= 0 && (ull)r == m, "wrong value"); \
	} \
	sv_reach("end"); \
}
#define SIG(n, t, l, h) LIMITS(n, t, l, h, true)
#define UNS(n, t, l, h) LIMITS(n, t, l, h, false)
SIGNED_VALUES(SIG)
UNSIGNED_VALUES(UNS)
#define FLOATS(name, type, l, h) \
void b3_##name(void) \
{ \
	strview_t o = any_view("text"), s = o; \
	type v, r; \
	int opt = sv_int(), err; \
	sv_assume(o.size <= 3); \
	err = strnum_consume_##name(&v, &s, opt); \
	sv_api("strnum_" #name); \
	r = strnum_##name(o, 4711.25, opt); \
	if(err) sv_check(r == 4711.25, "text that is no number does not give the default value"); \
	sv_reach("end"); \
}
FLOAT_TYPES(FLOATS)
