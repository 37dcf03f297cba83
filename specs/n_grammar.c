/* C43: what counts as a number: spaces, sign, base prefix and digits under every combination of options, for every text of a few
   characters; exactly the number is consumed and its value delivered. */
#include "num.h"
typedef struct { int err, used; int64_t value; bool open; } ref_t;
static int digit_of(char c, int base)
{
	int d = c >= '0' && c <= '9' ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
	return d < base ? d : -1;
}
static ref_t reference(strview_t s, int opt, bool sign)
{
	ref_t r = { EINVAL, 0, 0, false };
	int i = 0, base = opt & STRNUM_BASE_BIN ? 2 : opt & STRNUM_BASE_HEX ? 16 : 10;
	bool neg = false, digits = false, prefix = false;
	if(!s.data) return r;
	if(!(opt & STRNUM_NOSPACE))
		while(i < s.size && s.data[i] == ' ') i++;
	if(i < s.size && s.data[i] >= '\t' && s.data[i] <= '\r') r.open = true;   /* other kinds of white space are not specified */
	if(sign && !(opt & STRNUM_NOSIGN) && i < s.size && (s.data[i] == '-' || s.data[i] == '+'))
		neg = s.data[i++] == '-';
	if(!(opt & STRNUM_NOBX) && s.size - i >= 2 && s.data[i] == '0')
	{
		char p = s.data[i + 1];
		if((p == 'b' || p == 'B') && !(opt & STRNUM_BASE_HEX)) { base = 2; i += 2; prefix = true; }
		else if((p == 'x' || p == 'X') && !(opt & STRNUM_BASE_BIN)) { base = 16; i += 2; prefix = true; }
	}
	for(; i < s.size && digit_of(s.data[i], base) >= 0; i++)
	{
		r.value = r.value * base + digit_of(s.data[i], base);
		digits = true;
	}
	if(neg) r.value = -r.value;
	if(digits) { r.err = 0; r.used = i; }
	else if(prefix) r.open = true;                   /* a prefix without digits after it is not specified either */
	return r;
}
#define CONSUME(name, type, lim_lo, lim_hi, sign) \
void b4_##name(void) \
{ \
	strview_t o = any_view("text"), s = o; \
	int opt = sv_int(), err; \
	type dst; \
	ref_t r; \
	sv_assume(!(opt & STRNUM_BASE_BIN) || !(opt & STRNUM_BASE_HEX)); \
	sv_assume(o.size <= 4); \
	r = reference(o, opt, sign); \
	if(r.err == 0 && (r.value < (int64_t)lim_lo || (lim_hi <= INT64_MAX && r.value > (int64_t)lim_hi))) r.err = ERANGE; \
	sv_api("strnum_consume_" #name); \
	err = strnum_consume_##name(&dst, &s, opt); \
	if(!r.open) \
	{ \
		sv_check(err == r.err, "the text is not accepted or refused as specified"); \
		if(!err && !r.err) \
		{ \
			sv_check(s.data == o.data + r.used && s.size == o.size - r.used, "not exactly the number has been consumed"); \
			sv_check((int64_t)dst == r.value, "wrong value"); \
		} \
	} \
	sv_reach("end"); \
}
#define SIG(n, t, l, h) CONSUME(n, t, l, h, true)
#define UNS(n, t, l, h) CONSUME(n, t, l, h, false)
SIGNED_TYPES(SIG)
UNSIGNED_TYPES(UNS)
