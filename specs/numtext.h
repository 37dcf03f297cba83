#include "num.h"
typedef unsigned long long ull;
typedef struct { strview_t v; int lead, digits; ull hi, lo, unit; bool neg; } text_t;
static const char* set_of(int base) { return base == 10 ? "0123456789" : base == 2 ? "01" : "0123456789abcdefABCDEF"; }
static int digit_value(char c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
/* digits of any value after the given characters, then the end or a character that is not a digit; hi*unit+lo is the number */
static text_t number(int base, const char* lead, int nlead, int n)
{
	text_t t;
	int k, tail = sv_choice(2), low = base == 10 ? 9 : base == 16 ? 8 : 32;
	char* p = sv_ext(nlead + n + tail, 1, "number");
	for(k = 0; k < nlead; k++)
		sv_assume(p[k] == lead[k]);
	if(base == 10) sv_assume_all(p + nlead, n, "0123456789");
	else if(base == 2)
	{	/* two free digits at the start or the end of equal ones */
		char fill = '0' + sv_choice(2);
		int free = n < 3 ? 0 : sv_choice(2) * (n - 2);
		for(k = 0; k < n; k++)
			if(k >= free && k < free + 2) sv_assume(p[nlead + k] == '0' || p[nlead + k] == '1');
			else sv_assume(p[nlead + k] == fill);
	}
	else
	{	/* any first digit, then decimal, small or capital digits */
		sv_assume_all(p + nlead, 1, "0123456789abcdefABCDEF");
		if(n > 1)
			switch(sv_choice(3))
			{
				case 0: sv_assume_all(p + nlead + 1, n - 1, "0123456789"); break;
				case 1: sv_assume_all(p + nlead + 1, n - 1, "abcdef"); break;
				case 2: sv_assume_all(p + nlead + 1, n - 1, "ABCDEF"); break;
			}
	}
	if(tail) sv_assume_none(p + nlead + n, 1, "0123456789abcdefABCDEFxX");
	t.v.data = p; t.v.size = nlead + n + tail;
	t.lead = nlead; t.digits = n;
	t.unit = base == 10 ? 1000000000ull : 1ull << 32;
	t.hi = t.lo = 0;
	for(k = 0; k < n; k++)
	{
		if(k < n - low) t.hi = t.hi * base + digit_value(p[nlead + k]);
		else t.lo = t.lo * base + digit_value(p[nlead + k]);
	}
	return t;
}
static bool exceeds(text_t t, ull limit) { return t.hi > limit / t.unit || (t.hi == limit / t.unit && t.lo > limit % t.unit); }
