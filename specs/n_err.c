/* C41: outcome of a conversion: the destination and the source change on success only, and the source loses a part at its start. */
#include "num.h"
#define CONSUME(name, type, lo, hi) \
void h_consume_##name(void) \
{ \
	strview_t s = any_view("source"), o = s; \
	type before = (type)sv_i64(), dst = before; \
	int opt = sv_int(), err; \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(&dst, &s, opt); \
	sv_check(err == 0 || err == EINVAL || err == ERANGE, "the result is not 0, EINVAL or ERANGE"); \
	if(err) \
	{ \
		sv_check(UNTOUCHED(s, o), "a failed conversion modified the source"); \
		sv_check(dst == before, "a failed conversion modified the destination"); \
	} \
	else \
	{ \
		sv_check(o.data != NULL && o.size > 0, "a conversion of no text succeeded"); \
		sv_check(s.size >= 0 && s.size <= o.size, "a successful conversion enlarged the source"); \
		if(s.data) \
			sv_check(s.data == o.data + (o.size - s.size), "what is left is not the end of the source"); \
		else \
			sv_check(s.size == 0, "what is left is not the end of the source"); \
		sv_check(dst >= lo && dst <= hi, "value outside the limits of its type"); \
	} \
	sv_reach("end"); \
} \
void h_consume_null_##name(void) \
{ \
	strview_t s = STRVIEW_INVALID; \
	type before = (type)sv_i64(), dst = before; \
	int opt = sv_int(); \
	sv_api("strnum_consume_" #name); \
	sv_check(strnum_consume_##name(&dst, NULL, opt) == EINVAL, "a conversion without a source is not refused with EINVAL"); \
	sv_check(dst == before, "a failed conversion modified the destination"); \
	s.data = sv_ext(1, 1, "empty"); \
	sv_check(strnum_consume_##name(&dst, &s, opt) == EINVAL, "a conversion of an empty view is not refused with EINVAL"); \
	sv_check(dst == before, "a failed conversion modified the destination"); \
	sv_reach("end"); \
}
INT_TYPES(CONSUME)
#define FLOAT_ERR(pre, name, type, source, options) \
void pre##_consume_##name(void) \
{ \
	strview_t s = source, o = s; \
	type* dst = (type*)sv_raw(sizeof(type), 0, "destination"); \
	int opt = options, err, before; \
	sv_bytes(dst, sizeof(type)); \
	before = SNAP(dst, sizeof(type)); \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(dst, &s, opt); \
	sv_check(err == 0 || err == EINVAL || err == ERANGE, "the result is not 0, EINVAL or ERANGE"); \
	if(err) \
	{ \
		sv_check(UNTOUCHED(s, o), "a failed conversion modified the source"); \
		sv_content(dst, sizeof(type), "a failed conversion modified the destination", 1, PART(before, 0, sizeof(type))); \
	} \
	else \
	{ \
		sv_check(o.data != NULL && o.size > 0, "a conversion of no text succeeded"); \
		if(s.data) \
		{ \
			sv_check(s.size >= 0 && s.size < o.size, "a successful conversion consumed nothing"); \
			sv_check(s.data == o.data + (o.size - s.size), "what is left is not the end of the source"); \
		} \
		else \
			sv_check(s.size == 0, "what is left is not the end of the source"); \
	} \
	sv_reach("end"); \
}
FLOAT_ERR(b3, float, float, any_view("source"), sv_int())
FLOAT_ERR(b3, double, double, any_view("source"), sv_int())
FLOAT_ERR(b3, ldouble, long double, any_view("source"), sv_int())
#define FLOAT_NULL(name, type, lo, hi) \
void h_consume_null_##name(void) \
{ \
	strview_t s = STRVIEW_INVALID; \
	type* dst = (type*)sv_raw(sizeof(type), 0, "destination"); \
	int opt = sv_int(), before; \
	sv_bytes(dst, sizeof(type)); \
	before = SNAP(dst, sizeof(type)); \
	sv_api("strnum_consume_" #name); \
	sv_check(strnum_consume_##name(dst, NULL, opt) == EINVAL, "a conversion without a source is not refused with EINVAL"); \
	s.data = sv_ext(1, 1, "empty"); \
	sv_check(strnum_consume_##name(dst, &s, opt) == EINVAL, "a conversion of an empty view is not refused with EINVAL"); \
	s = STRVIEW_INVALID; \
	sv_check(strnum_consume_##name(dst, &s, opt) == EINVAL, "a conversion of the invalid view is not refused with EINVAL"); \
	sv_content(dst, sizeof(type), "a failed conversion modified the destination", 1, PART(before, 0, sizeof(type))); \
	sv_reach("end"); \
}
FLOAT_TYPES(FLOAT_NULL)
/* numbers with exponents of any size: some of them are out of range */
#define FLOAT_RANGE(name, type, ndigits) \
void b1_range_##name(void) \
{ \
	int sign = sv_choice(2), frac = 2 * sv_choice(2), tail = sv_choice(2), m = sign + 1 + frac, err, before; \
	char* p = sv_ext(m + 1 + ndigits + tail, 1, "number"); \
	type* dst = (type*)sv_raw(sizeof(type), 0, "destination"); \
	strview_t s, o; \
	if(sign) sv_assume(p[0] == '-' || p[0] == '+'); \
	sv_assume_all(p + sign, 1, "0123456789"); \
	if(frac) { sv_assume(p[sign + 1] == '.'); sv_assume_all(p + sign + 2, 1, "0123456789"); } \
	sv_assume(p[m] == 'e' || p[m] == 'E'); \
	sv_assume_all(p + m + 1, ndigits, "0123456789"); \
	s.data = p; s.size = m + 1 + ndigits + tail; o = s; \
	sv_bytes(dst, sizeof(type)); \
	before = SNAP(dst, sizeof(type)); \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(dst, &s, 0); \
	sv_check(err == 0 || err == ERANGE, "a number is neither accepted nor out of range"); \
	if(err) \
	{ \
		sv_check(UNTOUCHED(s, o), "a failed conversion modified the source"); \
		sv_content(dst, sizeof(type), "a failed conversion modified the destination", 1, PART(before, 0, sizeof(type))); \
	} \
	else if(s.data) sv_check(s.data == o.data + (o.size - s.size) && s.size < o.size, "what is left is not the end of the source"); \
	else sv_check(s.size == 0, "what is left is not the end of the source"); \
	sv_reach("end"); \
}
FLOAT_RANGE(float, float, 2)
FLOAT_RANGE(double, double, 3)
FLOAT_RANGE(ldouble, long double, 4)
