/* C05: an operation that does not apply reports it by the invalid view (0, false) and leaves its source alone. */
#include "common.h"
#define Z any_cstr("delimiters")
/* a location that is not in the source: inside some larger text of which the source is a middle part, but before or after it */
static strview_t outside(strview_t* src)
{
	strview_t all = any_valid("text"), p = part_of(all);
	*src = part_of(all);
	return p;
}
void h_left_outside(void)
{
	strview_t s, p = outside(&s), o = s, r;
	sv_assume(sv_choice(2) ? p.data < o.data : p.data > o.data + o.size);
	r = strview_split_left(&s, p);
	sv_check(IS_INVALID(r), "strview_split_left at a location outside the source gives a valid view");
	sv_check(SAME(s, o), "strview_split_left at a location outside the source modifies the source");
	sv_reach("end");
}
void h_right_outside(void)
{
	strview_t s, p = outside(&s), o = s, r;
	sv_assume(sv_choice(2) ? p.data + p.size < o.data : p.data + p.size > o.data + o.size);
	r = strview_split_right(&s, p);
	sv_check(IS_INVALID(r), "strview_split_right at a location outside the source gives a valid view");
	sv_check(SAME(s, o), "strview_split_right at a location outside the source modifies the source");
	sv_reach("end");
}
void h_left_invalid(void)
{
	strview_t s = any_view("source"), o = s, r, p = sv_choice(2) ? STRVIEW_INVALID : part_of(o);
	sv_assume(!p.data || !o.data);
	r = strview_split_left(&s, p);
	sv_check(IS_INVALID(r) && SAME(s, o), "strview_split_left of or at an invalid view is not refused");
	sv_reach("end");
}
void h_right_invalid(void)
{
	strview_t s = any_view("source"), o = s, r, p = sv_choice(2) ? STRVIEW_INVALID : part_of(o);
	sv_assume(!p.data || !o.data);
	r = strview_split_right(&s, p);
	sv_check(IS_INVALID(r) && SAME(s, o), "strview_split_right of or at an invalid view is not refused");
	sv_reach("end");
}
/* the documented edge cases */
void h_edges(void)
{
	strview_t o = any_valid("source"), s = o, r, p;
	p.size = 0;
	switch(sv_choice(4))
	{
		case 0: p.data = o.data + o.size; r = strview_split_left(&s, p); sv_check(SAME(r, o) && strview_is_valid(s) && s.size == 0, "strview_split_left at the upper limit does not return the entire source, leaving an empty one"); break;
		case 1: p.data = o.data; r = strview_split_left(&s, p); sv_check(strview_is_valid(r) && r.size == 0 && SAME(s, o), "strview_split_left at the start does not return an empty view, leaving the source unmodified"); break;
		case 2: p.data = o.data + o.size; r = strview_split_right(&s, p); sv_check(strview_is_valid(r) && r.size == 0 && SAME(s, o), "strview_split_right at the end does not return an empty view, leaving the source unmodified"); break;
		case 3: r = strview_split_right(&s, o); sv_check(strview_is_valid(r) && r.size == 0 && SAME(s, o), "strview_split_right of the whole source does not return an empty view, leaving the source unmodified"); break;
	}
	sv_reach("end");
}
void h_null(void)
{
	char e = sv_char();
	strview_t p = any_view("pos");
	sv_check(IS_INVALID(strview_split_first_delim(NULL, Z, sv_choice(2))), "strview_split_first_delim(NULL) is not invalid");
	sv_check(IS_INVALID(strview_split_last_delim(NULL, Z, sv_choice(2))), "strview_split_last_delim(NULL) is not invalid");
	sv_check(IS_INVALID(strview_split_index(NULL, sv_int())), "strview_split_index(NULL) is not invalid");
	sv_check(IS_INVALID(strview_split_left(NULL, p)), "strview_split_left(NULL) is not invalid");
	sv_check(IS_INVALID(strview_split_right(NULL, p)), "strview_split_right(NULL) is not invalid");
	sv_check(IS_INVALID(strview_split_line(NULL, sv_choice(2) ? &e : NULL)), "strview_split_line(NULL) is not invalid");
	sv_check(strview_pop_first_char(NULL) == 0, "strview_pop_first_char(NULL) is not 0");
	sv_check(IS_INVALID(cstr(NULL)), "cstr(NULL) is not invalid");
	sv_reach("end");
}
/* operations on the invalid view */
void h_invalid(void)
{
	strview_t s = STRVIEW_INVALID, v = any_view("other view");
	const char* z = Z;
	char e = sv_char(), e0 = e;
	sv_check(IS_INVALID(strview_sub(s, sv_int(), sv_int())), "a part of the invalid view is valid");
	sv_check(IS_INVALID(strview_trim_strview(s, v)) && IS_INVALID(strview_trim_start_strview(s, v)) && IS_INVALID(strview_trim_end_strview(s, v)), "the trimmed invalid view is valid");
	sv_check(IS_INVALID(strview_trim_cstr(s, z)) && IS_INVALID(strview_trim_start_cstr(s, z)) && IS_INVALID(strview_trim_end_cstr(s, z)), "the trimmed invalid view is valid");
	sv_check(IS_INVALID(strview_dequote(s)), "the dequoted invalid view is valid");
	sv_check(IS_INVALID(strview_split_first_delim(&s, z, sv_choice(2))) && IS_INVALID(s), "splitting the invalid view gives a valid view");
	sv_check(IS_INVALID(strview_split_last_delim(&s, z, sv_choice(2))) && IS_INVALID(s), "splitting the invalid view gives a valid view");
	sv_check(IS_INVALID(strview_split_index(&s, sv_int())) && IS_INVALID(s), "splitting the invalid view gives a valid view");
	sv_check(IS_INVALID(strview_split_line(&s, sv_choice(2) ? &e : NULL)) && IS_INVALID(s) && e == e0, "taking a line of the invalid view gives a valid view");
	sv_check(strview_pop_first_char(&s) == 0 && IS_INVALID(s), "popping a character of the invalid view gives one");
	sv_reach("end");
}
void h_invalid_find(void)
{
	strview_t s = STRVIEW_INVALID, v = any_view("other view"), a = sv_choice(2) ? v : s, b = a.data ? s : v;
	sv_check(IS_INVALID(strview_find_first_strview(a, b)) && IS_INVALID(strview_find_last_strview(a, b)), "something is found in, or as, the invalid view");
	sv_check(IS_INVALID(strview_find_first_nocase_strview(a, b)) && IS_INVALID(strview_find_last_nocase_strview(a, b)), "something is found in, or as, the invalid view");
	sv_check(!strview_contains(a, b) && !strview_contains_nocase(a, b), "something is contained in, or as, the invalid view");
	sv_check(IS_INVALID(strview_find_first_cstr(v, NULL)) && IS_INVALID(strview_find_last_cstr(v, NULL)), "something is found as NULL");
	sv_check(IS_INVALID(strview_find_first_nocase_cstr(v, NULL)) && IS_INVALID(strview_find_last_nocase_cstr(v, NULL)), "something is found as NULL");
	sv_reach("end");
}
/* trimming with no set, splitting with no delimiters */
void h_null_set(void)
{
	strview_t o = any_view("source"), s = o;
	sv_check(SAME(strview_trim_cstr(o, NULL), o) && SAME(strview_trim_start_cstr(o, NULL), o) && SAME(strview_trim_end_cstr(o, NULL), o), "trimming no characters modifies the view");
	sv_check(SAME(strview_trim_strview(o, STRVIEW_INVALID), o), "trimming no characters modifies the view");
	sv_check(SAME(strview_split_first_delim(&s, NULL, sv_choice(2)), o) && IS_INVALID(s), "splitting by no delimiters does not return the whole source");
	s = o;
	sv_check(SAME(strview_split_last_delim(&s, NULL, sv_choice(2)), o) && IS_INVALID(s), "splitting by no delimiters does not return the whole source");
	sv_reach("end");
}
/* splitting an empty view gives the empty view, then nothing is left */
void h_empty(void)
{
	strview_t o = any_valid("source"), s;
	o.size = 0; s = o;
	sv_check(SAME(strview_split_first_delim(&s, Z, sv_choice(2)), o) && IS_INVALID(s), "splitting an empty view");
	s = o;
	sv_check(SAME(strview_split_last_delim(&s, Z, sv_choice(2)), o) && IS_INVALID(s), "splitting an empty view");
	s = o;
	sv_check(SAME(strview_split_index(&s, sv_int()), o) && SAME(s, o), "splitting an empty view by index");
	sv_check(IS_INVALID(strview_split_line(&s, NULL)) && SAME(s, o), "taking a line of an empty view");
	sv_check(SAME(strview_sub(o, sv_int(), sv_int()), o), "a part of an empty view is not the empty view");
	sv_reach("end");
}
void h_swap(void)
{
	strview_t a = any_view("view"), b = any_view("other view"), oa = a, ob = b;
	strview_swap(&a, &b);
	sv_check(SAME(a, ob) && SAME(b, oa), "strview_swap does not swap");
	strview_swap(&a, &a);
	sv_check(SAME(a, ob), "strview_swap of a view with itself modifies it");
	sv_check(strview_is_valid(a) == (a.data != NULL), "strview_is_valid is wrong");
	sv_reach("end");
}
