/* C47: the value of a floating-point number: the exact decimal value the text spells, up to the rounding of the machine's arithmetic
   (the analysis follows the values as exact decimal sums); too large values are refused with ERANGE, zero stays zero. */
#include "num.h"
typedef unsigned long long ull;
/* the digits from..to-1 as one integer */
static int64_t digits(const char* p, int from, int to)
{
	int64_t v = 0;
	int k;
	for(k = from; k < to; k++) v = v * 10 + (p[k] - '0');
	return v;
}
/* m digits before and n behind the point; sign; an exponent or none; the end or another character */
#define VALUE(name, type, bits, label, m, n) \
void b1_##name##_##label(void) \
{ \
	static const int exps[] = { 0, 5, -7, 12, 0 }; \
	bool small = m + n < 8; \
	int sign = sv_choice(small ? 3 : 2), e = small ? sv_choice(5) : 2 * sv_choice(2), tail = small ? sv_choice(2) : sign, k, elen = e == 0 ? 0 : e == 3 ? 4 : e == 2 ? 3 : 2; \
	int dig = sign > 0, dot = dig + m, frac = dot + (n > 0), ex = frac + n, len = ex + elen, exp = exps[e], err, opt = 0; \
	int64_t s, split = m > 18 ? m - 18 : 0, fsplit = n > 18 ? 18 : n; \
	type v; \
	strview_t o, t; \
	char* p = sv_ext(len + tail, 1, "number"); \
	if(sign) sv_assume(p[0] == (sign == 1 ? '-' : '+')); \
	sv_assume_all(p + dig, m, "0123456789"); \
	if(n) { sv_assume(p[dot] == '.'); sv_assume_all(p + frac, n, "0123456789"); } \
	if(n > 3) \
	{   /* none or some zeros at the end */ \
		int z = sv_choice(2) * (n / 2); \
		sv_assume_all(p + ex - z, z, "0"); \
		sv_assume_none(p + ex - z - 1, 1, "0"); \
	} \
	switch(e) \
	{ \
		case 1: sv_assume(p[ex] == 'e' && p[ex + 1] == '5'); break; \
		case 2: sv_assume(p[ex] == 'E' && p[ex + 1] == '-' && p[ex + 2] == '7'); break; \
		case 3: sv_assume(p[ex] == 'e' && p[ex + 1] == '+' && p[ex + 2] == '1' && p[ex + 3] == '2'); break; \
		case 4: sv_assume(p[ex] == 'E'); sv_assume_all(p + ex + 1, 1, "0123456789"); exp = p[ex + 1] - '0'; break; \
	} \
	if(tail) sv_assume_none(p + len, 1, "0123456789.eE"); \
	s = sign == 1 ? -1 : 1; \
	o.data = p; o.size = len + tail; t = o; \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(&v, &t, opt); \
	sv_check(err == 0, "a number is refused"); \
	if(!err) \
	{ \
		sv_check(t.size == tail, "not exactly the number has been consumed"); \
		sv_fp_bits(v, bits, "digits are lost by rounding to a narrower type on the way"); \
		sv_fp_is(v, "not the value the text spells", 4, \
			s * digits(p, dig, dig + split), exp + (m - (int)split), s * digits(p, dig + split, dot), exp, \
			s * digits(p, frac, frac + fsplit), exp - (int)fsplit, s * digits(p, frac + fsplit, ex), exp - n); \
	} \
	sv_reach("end"); \
}
#define VALUES(name, type, bits) \
	VALUE(name, type, bits, 1_0, 1, 0) VALUE(name, type, bits, 2_1, 2, 1) VALUE(name, type, bits, 0_3, 0, 3) VALUE(name, type, bits, 3_2, 3, 2) VALUE(name, type, bits, 9_9, 9, 9) \
	VALUE(name, type, bits, 18_0, 18, 0) VALUE(name, type, bits, 20_0, 20, 0) VALUE(name, type, bits, 21_1, 21, 1) VALUE(name, type, bits, 25_0, 25, 0) VALUE(name, type, bits, 1_20, 1, 20) VALUE(name, type, bits, 0_22, 0, 22)
VALUES(float, float, 24)
VALUES(double, double, 53)
VALUES(ldouble, long double, 64)
/* exponents of any size: too large a number is refused and nothing is consumed, zero stays zero, small numbers are accepted */
#define EXPONENTS(name, type, max, digits_of_max) \
void b1_exponent_##name(void) \
{ \
	int zero = sv_choice(2), frac = sv_choice(2), neg = sv_choice(3), n = digits_of_max, err, mant = 1 + 2 * frac, e = mant + 1 + (neg > 0), len = e + n; \
	int64_t exp; \
	type v; \
	strview_t o, t; \
	char* p = sv_ext(len, 1, "number"); \
	sv_assume_all(p, 1, zero ? "0" : "123456789"); \
	if(frac) { sv_assume(p[1] == '.'); sv_assume_all(p + 2, 1, zero ? "0" : "0123456789"); } \
	sv_assume(p[mant] == 'e' || p[mant] == 'E'); \
	if(neg) sv_assume(p[mant + 1] == (neg == 1 ? '-' : '+')); \
	sv_assume_all(p + e, n, "0123456789"); \
	exp = digits(p, e, len); \
	o.data = p; o.size = len; t = o; \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(&v, &t, 0); \
	if(zero) { sv_check(err == 0, "zero is refused for its exponent"); if(!err) sv_fp_is(v, "zero with an exponent has another value", 1, 0L, 0); } \
	else if(neg == 1) sv_check(err == 0, "a small number is refused"); \
	else if(exp > max) \
	{ \
		sv_check(err == ERANGE, "a number too large for the type is not refused with ERANGE"); \
		sv_check(t.data == o.data && t.size == o.size, "a refused number has been consumed"); \
	} \
	else if(exp < max - 5) sv_check(err == 0, "a number the type can hold is refused"); \
	sv_reach("end"); \
}
EXPONENTS(float, float, 38, 2)
EXPONENTS(double, double, 308, 3)
EXPONENTS(ldouble, long double, 4932, 4)
