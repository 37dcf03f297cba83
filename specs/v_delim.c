/* C04: the split happens at the first (last) delimiter outside quotes; if there is none the whole source is returned. */
#include "common.h"
/* index of the delimiter the split has to use, or -1 */
static int first_of(strview_t o, strview_t d, bool quotes)
{
	bool in = false;
	int k;
	for(k = 0; d.data && k < o.size; k++)
	{
		if(quotes && o.data[k] == '"') in = !in;
		if(!in && has(d, o.data[k])) return k;
	}
	return -1;
}
static int last_of(strview_t o, strview_t d, bool quotes)
{
	bool in = false;
	int k;
	for(k = o.size - 1; d.data && k >= 0; k--)
	{
		if(quotes && o.data[k] == '"') in = !in;
		if(!in && has(d, o.data[k])) return k;
	}
	return -1;
}
static void choice(bool last, bool quotes, const char* z)
{
	strview_t s = any_valid("source"), o = s, r;
	int k;
	r = last ? strview_split_last_delim(&s, z, quotes) : strview_split_first_delim(&s, z, quotes);
	k = last ? last_of(o, cstr(z), quotes) : first_of(o, cstr(z), quotes);
	if(k < 0)
		sv_check(SAME(r, o) && IS_INVALID(s), "there is no delimiter outside quotes, but the source is split");
	else
	{
		sv_check(strview_is_valid(s) && (last ? s.size : r.size) == k, "the source is not split at the right delimiter");
		sv_check((last ? r.size : s.size) == o.size - k - 1, "the other part does not start after the delimiter");
	}
	sv_reach("end");
}
void b5_first(void) { choice(false, false, any_cstr("delimiters")); }
void b5_last(void) { choice(true, false, any_cstr("delimiters")); }
void b7_first_quotes(void) { choice(false, true, ","); }
void b7_last_quotes(void) { choice(true, true, ","); }
void b5_first_quotes2(void) { choice(false, true, ",\""); }
void b5_last_quotes2(void) { choice(true, true, ";\","); }
/* sources of any length, given delimiters */
#define D ",;"
void h_first(void)
{
	strview_t s = any_valid("source"), o = s, r;
	r = strview_split_first_delim(&s, D, false);
	if(r.data) sv_none(r.data, r.size, D, "the result contains a delimiter");
	if(s.data) sv_all(o.data + r.size, 1, D, "the character removed is not a delimiter");
	sv_reach("end");
}
void h_last(void)
{
	strview_t s = any_valid("source"), o = s, r;
	r = strview_split_last_delim(&s, D, false);
	if(r.data) sv_none(r.data, r.size, D, "the result contains a delimiter");
	if(s.data) sv_all(o.data + s.size, 1, D, "the character removed is not a delimiter");
	sv_reach("end");
}
void h_none(void)
{
	strview_t s = any_valid("source"), o = s, r;
	sv_assume_none(s.data, s.size, D);
	r = sv_choice(2) ? strview_split_first_delim(&s, D, sv_choice(2)) : strview_split_last_delim(&s, D, sv_choice(2));
	sv_check(SAME(r, o) && IS_INVALID(s), "a source that contains no delimiter is split");
	sv_reach("end");
}
void h_quoted(void)
{
	char lit[] = "a\"b,c\"d,e";
	strview_t s = {lit, 9}, r;
	r = strview_split_first_delim(&s, D, true);
	sv_check(r.size == 7 && s.size == 1, "a delimiter inside quotes is used");
	s.data = lit; s.size = 9;
	r = strview_split_first_delim(&s, D, false);
	sv_check(r.size == 3 && s.size == 5, "a delimiter is not used although quotes are to be ignored");
	s.data = lit; s.size = 7;
	r = strview_split_last_delim(&s, D, true);
	sv_check(r.size == 7 && !s.data, "a delimiter inside quotes is used");
	sv_reach("end");
}
