/* C03: splitting partitions the source: result, removed delimiter and remainder together are exactly the source. */
#include "common.h"
/* `first` and `last` are consecutive parts of o with `gap` removed characters between them.  A part of size 0 may point anywhere in o. */
static void parts(strview_t first, strview_t last, strview_t o, int gap, const char* m)
{
	sv_check((long)first.size + gap + last.size == o.size, m);
	if(first.size) sv_check(first.data == o.data, m);
	if(last.size) sv_check(last.data == o.data + (o.size - last.size), m);
}
#define Z any_cstr("delimiters")
static void delim(bool last)
{
	strview_t s = any_view("source"), o = s, r;
	const char* z = sv_choice(2) ? Z : ",;";
	bool q = sv_choice(2);
	r = last ? strview_split_last_delim(&s, z, q) : strview_split_first_delim(&s, z, q);
	if(strview_is_valid(s))
		last ? parts(s, r, o, 1, "strview_split_last_delim: remainder, one delimiter and result are not the source")
		     : parts(r, s, o, 1, "strview_split_first_delim: result, one delimiter and remainder are not the source");
	else
		sv_check(SAME(r, o) && s.size == 0, "no split was made, but the whole source is not returned");
	if(!o.data || !o.size || !z)
		sv_check(SAME(r, o) && IS_INVALID(s), "a source without a delimiter is not returned whole, leaving an invalid source");
	sv_reach("end");
}
void h_first(void) { delim(false); }
void h_last(void) { delim(true); }
static void removed(bool last)
{
	strview_t s = any_view("source"), o = s, r;
	const char* z = Z;
	bool q = sv_choice(2);
	r = last ? strview_split_last_delim(&s, z, q) : strview_split_first_delim(&s, z, q);
	if(strview_is_valid(s))
		sv_check(has(cstr(z), o.data[last ? s.size : r.size]), "the character removed by a split is not a delimiter");
	sv_reach("end");
}
void b5_first_removed(void) { removed(false); }
void b5_last_removed(void) { removed(true); }
void h_index(void)
{
	strview_t s = any_view("source"), o = s, r;
	int k = sv_int();
	r = strview_split_index(&s, k);
	sv_check(strview_is_valid(r) == strview_is_valid(o) && strview_is_valid(s) == strview_is_valid(o), "strview_split_index of a valid view does not leave two valid views");
	if(k >= 0) parts(r, s, o, 0, "strview_split_index: result and remainder are not the source");
	else parts(s, r, o, 0, "strview_split_index: remainder and result are not the source");
	sv_reach("end");
}
void h_left(void)
{
	strview_t o = any_valid("source"), s = o, p = part_of(o), r;
	r = strview_split_left(&s, p);
	sv_check(strview_is_valid(r) && strview_is_valid(s), "strview_split_left at a location inside the source fails");
	parts(r, s, o, 0, "strview_split_left: result and remainder are not the source");
	sv_check(r.size == p.data - o.data, "strview_split_left does not split at the start of pos");
	sv_reach("end");
}
void h_right(void)
{
	strview_t o = any_valid("source"), s = o, p = part_of(o), r;
	r = strview_split_right(&s, p);
	sv_check(strview_is_valid(r) && strview_is_valid(s), "strview_split_right at a location inside the source fails");
	parts(s, r, o, 0, "strview_split_right: remainder and result are not the source");
	sv_check(s.size == p.data + p.size - o.data, "strview_split_right does not split at the end of pos");
	sv_reach("end");
}
/* pos reaches over a limit of the source: only the place of the split matters */
static strview_t across(strview_t* src)
{
	strview_t all = any_valid("text");
	*src = part_of(all);
	return part_of(all);
}
void h_left_across(void)
{
	strview_t o, p = across(&o), s = o, r;
	sv_assume(p.data >= o.data && p.data <= o.data + o.size);
	r = strview_split_left(&s, p);
	sv_check(strview_is_valid(r) && strview_is_valid(s), "strview_split_left at a location inside the source fails");
	parts(r, s, o, 0, "strview_split_left: result and remainder are not the source");
	sv_check(r.size == p.data - o.data, "strview_split_left does not split at the start of pos");
	sv_reach("end");
}
void h_right_across(void)
{
	strview_t o, p = across(&o), s = o, r;
	sv_assume(p.data + p.size >= o.data && p.data + p.size <= o.data + o.size);
	r = strview_split_right(&s, p);
	sv_check(strview_is_valid(r) && strview_is_valid(s), "strview_split_right at a location inside the source fails");
	parts(s, r, o, 0, "strview_split_right: remainder and result are not the source");
	sv_check(s.size == p.data + p.size - o.data, "strview_split_right does not split at the end of pos");
	sv_reach("end");
}
void h_pop(void)
{
	strview_t s = any_view("source"), o = s;
	char c = strview_pop_first_char(&s);
	if(o.size) sv_check(c == o.data[0] && s.size == o.size - 1 && s.data == o.data + 1, "strview_pop_first_char does not remove exactly the first character");
	else sv_check(c == 0 && SAME(s, o), "strview_pop_first_char of nothing is not 0 or modifies the source");
	sv_reach("end");
}
void b3_pop_all(void)
{
	strview_t s = any_valid("source"), o = s;
	int k;
	for(k = 0; k < o.size; k++)
		sv_check(strview_pop_first_char(&s) == o.data[k], "characters are not popped in order");
	sv_check(s.size == 0 && strview_pop_first_char(&s) == 0, "popping every character does not empty the view");
	sv_reach("end");
}
/* splitting repeatedly visits the whole source */
void b4_repeat(void)
{
	strview_t s = any_view("source"), o = s, r;
	long total = 0;
	int n = 0;
	const char* z = Z;
	while(strview_is_valid(s))
	{
		if(n) total++;
		r = strview_split_first_delim(&s, z, false);
		total += r.size;
		if(++n > 5) break;
	}
	sv_check(total == o.size, "the pieces of a repeatedly split view do not add up to the source");
	sv_reach("end");
}
