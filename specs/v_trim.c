/* C08: trimming removes the longest leading / trailing run of the given characters, and nothing else. */
#include "common.h"
#define T " \t."
static strview_t trimmed(strview_t s, strview_t set, bool front, bool back)
{
	while(front && s.size && has(set, s.data[0])) s.data++, s.size--;
	while(back && s.size && has(set, s.data[s.size - 1])) s.size--;
	return s;
}
static void same(strview_t r, strview_t x, const char* m)
{
	sv_check(r.size == x.size, m);
	if(x.size) sv_check(r.data == x.data, m);
	sv_check(strview_is_valid(r) == strview_is_valid(x), m);
}
static void relation(int which)
{
	strview_t s = any_view("source"), set = any_view("characters to trim");
	switch(which)
	{
		case 0: same(strview_trim_strview(s, set), trimmed(s, set, 1, 1), "strview_trim does not remove exactly the leading and trailing characters of the set"); break;
		case 1: same(strview_trim_start_strview(s, set), trimmed(s, set, 1, 0), "strview_trim_start does not remove exactly the leading characters of the set"); break;
		case 2: same(strview_trim_end_strview(s, set), trimmed(s, set, 0, 1), "strview_trim_end does not remove exactly the trailing characters of the set"); break;
	}
	sv_reach("end");
}
void b4_trim(void) { relation(0); }
void b4_trim_start(void) { relation(1); }
void b4_trim_end(void) { relation(2); }
static void relation_cstr(int which)
{
	strview_t s = any_view("source"), set;
	const char* z = any_cstr("characters to trim");
	set = cstr(z);
	switch(which)
	{
		case 0: same(strview_trim_cstr(s, z), trimmed(s, set, 1, 1), "strview_trim does not remove exactly the leading and trailing characters of the set"); break;
		case 1: same(strview_trim_start_cstr(s, z), trimmed(s, set, 1, 0), "strview_trim_start does not remove exactly the leading characters of the set"); break;
		case 2: same(strview_trim_end_cstr(s, z), trimmed(s, set, 0, 1), "strview_trim_end does not remove exactly the trailing characters of the set"); break;
	}
	sv_reach("end");
}
void b4_trim_cstr(void) { relation_cstr(0); }
void b4_trim_start_cstr(void) { relation_cstr(1); }
void b4_trim_end_cstr(void) { relation_cstr(2); }
/* the same for sources of any length and a given set */
static void around(strview_t o, strview_t r, bool front, bool back)
{
	long a = r.size ? r.data - o.data : 0;
	if(r.size)
	{
		if(front) { sv_all(o.data, a, T, "a character that is not in the set was trimmed from the start"); sv_none(r.data, 1, T, "a character of the set is left at the start"); }
		else sv_check(a == 0, "the start was trimmed");
		if(back) { sv_all(r.data + r.size, o.size - a - r.size, T, "a character that is not in the set was trimmed from the end"); sv_none(r.data + r.size - 1, 1, T, "a character of the set is left at the end"); }
		else sv_check(a + r.size == o.size, "the end was trimmed");
	}
	else if(o.size)
		sv_all(o.data, o.size, T, "a character that is not in the set was trimmed");
}
void h_trim(void) { strview_t o = any_valid("source"); around(o, strview_trim_cstr(o, T), 1, 1); sv_reach("end"); }
void h_trim_start(void) { strview_t o = any_valid("source"); around(o, strview_trim_start_cstr(o, T), 1, 0); sv_reach("end"); }
void h_trim_end(void) { strview_t o = any_valid("source"); around(o, strview_trim_end_cstr(o, T), 0, 1); sv_reach("end"); }
void h_valid(void)
{
	strview_t o = any_valid("source"), set = any_view("set");
	sv_check(strview_is_valid(strview_trim_strview(o, set)), "a trimmed valid view is not valid");
	sv_check(strview_is_valid(strview_trim_start_strview(o, set)), "a trimmed valid view is not valid");
	sv_check(strview_is_valid(strview_trim_end_strview(o, set)), "a trimmed valid view is not valid");
	sv_reach("end");
}
