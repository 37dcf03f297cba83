/* C40: number conversion reads nothing outside the text of the view it is given, for any bytes, options and null arguments. */
#include "num.h"
#define CONSUME(name, type, lo, hi) \
void h_consume_##name(void) \
{ \
	strview_t s = any_view("source"); \
	type dst, *pd = sv_choice(2) ? &dst : NULL; \
	strview_t* ps = sv_choice(2) ? &s : NULL; \
	sv_api("strnum_consume_" #name); \
	strnum_consume_##name(pd, ps, sv_int()); \
	sv_reach("end"); \
}
INT_TYPES(CONSUME)
/* floating-point numbers: texts of up to 5 characters (longer ones in n_float.c) */
#define FCONSUME(name, type, lo, hi) \
void b5_consume_##name(void) \
{ \
	strview_t s = any_view("source"); \
	type dst, *pd = sv_choice(2) ? &dst : NULL; \
	sv_assume(s.size <= 5); \
	sv_api("strnum_consume_" #name); \
	strnum_consume_##name(pd, &s, sv_int()); \
	sv_reach("end"); \
} \
void b3_##name(void) \
{ \
	strview_t s = any_view("source"); \
	type d = (type)sv_i64(); \
	sv_assume(s.size <= 3); \
	sv_api("strnum_" #name); \
	strnum_##name(s, d, sv_int()); \
	sv_api("strnum_consume_" #name); \
	strnum_consume_##name(&d, NULL, sv_int()); \
	sv_reach("end"); \
}
FLOAT_TYPES(FCONSUME)
#define VALUE(name, type, lo, hi) \
void h_##name(void) \
{ \
	strview_t s = any_view("source"); \
	type d = (type)sv_i64(); \
	sv_api("strnum_" #name); \
	strnum_##name(s, d, sv_int()); \
	sv_reach("end"); \
}
SIGNED_VALUES(VALUE)
UNSIGNED_VALUES(VALUE)
