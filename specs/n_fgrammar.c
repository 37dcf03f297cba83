/* C46: what counts as a floating-point number, for every text of a few characters under every combination of options, and for the
   spellings of infinity and not-a-number; exactly the number is consumed. */
#include "num.h"
#include <math.h>
#define DIGIT(c) ((c) >= '0' && (c) <= '9')
typedef struct { int err, used, exp; bool open, nonzero, inf, nan, neg; int mdigits; } ref_t;
static bool word(strview_t s, int i, const char* lower, const char* upper, int n)
{
	int k;
	if(s.size - i < n) return false;
	for(k = 0; k < n; k++)
		if(s.data[i + k] != lower[k] && s.data[i + k] != upper[k]) return false;
	return true;
}
static ref_t reference(strview_t s, int opt)
{
	ref_t r = { EINVAL, 0, 0, false, false, false, false, false, 0 };
	int i = 0, j;
	bool digits = false;
	if(!s.data) return r;
	if(!(opt & STRNUM_NOSPACE))
		while(i < s.size && s.data[i] == ' ') i++;
	if(i < s.size && s.data[i] >= '\t' && s.data[i] <= '\r') r.open = true;   /* other kinds of white space are not specified */
	if(!(opt & STRNUM_NOSIGN) && i < s.size && (s.data[i] == '-' || s.data[i] == '+'))
		r.neg = s.data[i++] == '-';
	if(word(s, i, "infinity", "INFINITY", 8)) { r.err = 0; r.inf = true; r.used = i + 8; return r; }
	if(word(s, i, "inf", "INF", 3)) { r.err = 0; r.inf = true; r.used = i + 3; return r; }
	if(word(s, i, "nan", "NAN", 3)) { r.err = 0; r.nan = true; r.used = i + 3; return r; }
	for(; i < s.size && DIGIT(s.data[i]); i++) { digits = true; if(s.data[i] != '0') r.nonzero = true; if(r.nonzero) r.mdigits++; }
	if(i < s.size && s.data[i] == '.')
		for(i++; i < s.size && DIGIT(s.data[i]); i++) { digits = true; if(s.data[i] != '0') r.nonzero = true; }
	if(!digits) return r;
	r.err = 0;
	r.used = i;
	if(!(opt & STRNUM_NOEXP) && i < s.size && (s.data[i] == 'e' || s.data[i] == 'E'))
	{
		bool neg = false;
		j = i + 1;
		if(j < s.size && (s.data[j] == '-' || s.data[j] == '+'))
		{
			neg = s.data[j++] == '-';
			if(opt & STRNUM_NOSIGN) r.open = true;         /* whether the option is about the exponent too is not specified */
		}
		for(; j < s.size && DIGIT(s.data[j]); j++) { r.exp = r.exp * 10 + (s.data[j] - '0'); r.used = j + 1; }
		if(neg) r.exp = -r.exp;
	}
	return r;
}
static void verify(strview_t o, strview_t s, int err, ref_t* p, int max)
{
	ref_t r = *p;
	if(!r.err && r.nonzero && r.exp + r.mdigits > max - 5)
	{
		if(r.exp > max) r.err = ERANGE;
		else p->open = r.open = true;                    /* about the limit of the type: rounding decides */
	}
	if(!r.open)
	{
		sv_check(err == r.err, "the text is not accepted or refused as specified");
		if(!err && !r.err)
		{
			if(s.data)
				sv_check(s.data == o.data + r.used && s.size == o.size - r.used, "not exactly the number has been consumed");
			else
				sv_check(s.size == 0 && r.used == o.size, "not exactly the number has been consumed");
		}
	}
}
#define SPECIAL(type) \
	if(!err && !r.err && !r.open) \
	{ \
		if(r.inf) sv_check(r.neg ? dst == -INFINITY : dst == INFINITY, "the text of infinity has another value"); \
		else if(r.nan) sv_check(dst != dst, "the text of nan has another value"); \
		else sv_check(dst == dst && dst != INFINITY && dst != -INFINITY, "the text of a number gives infinity or nan"); \
	}
#define TEXT(name, type, max, n) \
void b##n##_##name(void) \
{ \
	strview_t o = any_view("text"), s = o; \
	int opt = sv_int(), err; \
	type dst; \
	ref_t r; \
	sv_assume(o.size <= n); \
	r = reference(o, opt); \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(&dst, &s, opt); \
	verify(o, s, err, &r, max); \
	SPECIAL(type) \
	sv_reach("end"); \
}
TEXT(float, float, 38, 4)
TEXT(double, double, 308, 4)
TEXT(ldouble, long double, 4932, 4)
/* a space or not, a sign or not, then the words in any mixture of capitals and small letters, then any character or nothing */
static void letters(char* p, int w)
{
	static const char i[] = "iI", n[] = "nN", f[] = "fF", t[] = "tT", y[] = "yY", a[] = "aA";
	if(w == 2) { sv_assume_all(p, 1, n); sv_assume_all(p + 1, 1, a); sv_assume_all(p + 2, 1, n); return; }
	sv_assume_all(p, 1, i); sv_assume_all(p + 1, 1, n); sv_assume_all(p + 2, 1, f);
	if(w == 1) return;
	sv_assume_all(p + 3, 1, i); sv_assume_all(p + 4, 1, n); sv_assume_all(p + 5, 1, i); sv_assume_all(p + 6, 1, t);
	if(w == 0) sv_assume_all(p + 7, 1, y);
}
#define WORDS(name, type, max) \
void b1_words_##name(void) \
{ \
	int w = sv_choice(4), sign = sv_choice(3), space = sv_choice(2), tail = sv_choice(2), opt = sv_int(), err; \
	int len = w == 0 ? 8 : w == 3 ? 7 : 3, used = space + (sign > 0) + (w == 0 ? 8 : 3); \
	bool ok = true; \
	type dst; \
	strview_t o, s; \
	char* p = sv_ext(space + (sign > 0) + len + tail, 1, "word"); \
	if(space) { sv_assume(p[0] == ' '); if(opt & STRNUM_NOSPACE) ok = false; } \
	if(sign) { sv_assume(p[space] == (sign == 1 ? '-' : '+')); if(opt & STRNUM_NOSIGN) ok = false; } \
	letters(p + space + (sign > 0), w); \
	if(tail && w) sv_assume_none(p + space + (sign > 0) + len, 1, w == 3 ? "yY" : "iI"); \
	o.data = p; o.size = space + (sign > 0) + len + tail; s = o; \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(&dst, &s, opt); \
	sv_check(err == (ok ? 0 : EINVAL), "the text is not accepted or refused as specified"); \
	if(!err && ok) \
	{ \
		if(s.data) sv_check(s.data == p + used && s.size == o.size - used, "not exactly the number has been consumed"); \
		else sv_check(s.size == 0 && used == o.size, "not exactly the number has been consumed"); \
		if(w == 2) sv_check(dst != dst, "the text of nan has another value"); \
		else if(sign == 1) sv_check(dst == -INFINITY, "the text of infinity has another value"); \
		else sv_check(dst == INFINITY, "the text of infinity has another value"); \
	} \
	sv_reach("end"); \
}
WORDS(float, float, 38)
WORDS(double, double, 308)
WORDS(ldouble, long double, 4932)
