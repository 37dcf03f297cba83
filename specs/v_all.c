/* C13: strview_split_all stores the pieces of the source in order. */
#include "common.h"
static void all(int n, const char* z, bool quotes)
{
	strview_t d[4], o = any_view("source"), s = o, x;
	int k, r;
	r = strview_split_all(n, d, o, z, quotes);
	for(k = 0; k < n && strview_is_valid(s); k++)
	{
		x = strview_split_first_delim(&s, z, quotes);
		sv_check(r > k, "strview_split_all stores fewer pieces than there are");
		if(r > k) sv_check(SAME(d[k], x), "an element is not the next piece of the source");
	}
	sv_check(r == k, "strview_split_all does not return the number of pieces, limited by the size of the array");
	sv_reach("end");
}
void b3_all_any(void) { all(4, any_cstr("delimiters"), sv_choice(2)); }
void b5_all(void) { all(4, ",", sv_choice(2)); }
void b4_all_limited(void) { all(sv_choice(4), ",;", false); }
void h_none(void)
{
	strview_t d[2], o = any_valid("source");
	sv_assume_none(o.data, o.size, ",;");
	sv_check(strview_split_all(2, d, o, ",;", sv_choice(2)) == 1 && SAME(d[0], o), "a source without a delimiter is not stored as one piece");
	sv_check(strview_split_all(2, d, o, NULL, sv_choice(2)) == 1 && SAME(d[0], o), "a source split by no delimiters is not stored as one piece");
	sv_check(strview_split_all(0, d, o, ",", 0) == 0, "pieces are stored in an array of no elements");
	sv_check(strview_split_all(2, d, STRVIEW_INVALID, ",", 0) == 0, "pieces of the invalid view are stored");
	sv_reach("end");
}
void h_limit(void)
{
	strview_t d[3], g = {"guard", 5}, o = any_view("source");
	int r;
	d[2] = g;
	r = strview_split_all(2, d, o, ",", sv_choice(2));
	sv_check(r >= 0 && r <= 2, "more elements are reported than the array has");
	sv_check(SAME(d[2], g), "an element past the end of the array is written");
	sv_check((r == 0) == !o.data, "no piece is stored of a valid view, or one of the invalid view");
	sv_reach("end");
}
