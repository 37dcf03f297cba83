/* C06: index arithmetic of strview_sub and strview_split_index, for every index and size. */
#include "common.h"
static long norm(long k, long size) { return k < 0 ? k + size : k; }
void h_sub(void)
{
	strview_t s = any_valid("source"), r;
	int b = sv_int(), e = sv_int();
	long B, E;
	sv_assume(s.size > 0);
	r = strview_sub(s, b, e);
	B = norm(b, s.size); E = norm(e, s.size);
	if(B <= E && B < s.size && E >= 0)
	{
		if(B < 0) B = 0;
		if(E > s.size) E = s.size;
		sv_check(strview_is_valid(r), "strview_sub of indexes that select a part is invalid");
		if(r.data)
		{
			sv_check(r.size == E - B, "strview_sub has the wrong size");
			sv_check(r.data == s.data + B, "strview_sub starts at the wrong place");
		}
	}
	else
		sv_check(IS_INVALID(r), "strview_sub of indexes that select nothing is valid");
	sv_reach("end");
}
void h_sub_none(void)
{
	strview_t s = any_view("source");
	if(s.data) s.size = 0;
	sv_check(SAME(strview_sub(s, sv_int(), sv_int()), s), "strview_sub of a view of no characters is not that view");
	sv_reach("end");
}
void h_sub_whole(void)
{
	strview_t s = any_view("source");
	sv_check(SAME(strview_sub(s, 0, INT_MAX), s), "strview_sub from 0 to INT_MAX is not the source");
	sv_check(SAME(strview_sub(s, INT_MIN, INT_MAX), s), "strview_sub from INT_MIN to INT_MAX is not the source");
	sv_check(SAME(strview_sub(s, 0, s.size), s), "strview_sub from 0 to the size is not the source");
	sv_reach("end");
}
void h_sub_sub(void)
{
	strview_t s = any_valid("source"), a, b;
	int k = sv_int(), m = sv_int();
	sv_assume(k >= 0 && m >= k && m <= s.size && k < s.size);
	a = strview_sub(strview_sub(s, k, INT_MAX), 0, m - k);
	b = strview_sub(s, k, m);
	sv_check(SAME(a, b), "a part of a part is not the part");
	sv_reach("end");
}
void h_split_index(void)
{
	strview_t o = any_valid("source"), s = o, r;
	int k = sv_int();
	long n = norm(k, o.size);
	if(n < 0) n = 0;
	if(n > o.size) n = o.size;
	r = strview_split_index(&s, k);
	if(k >= 0)
	{
		sv_check(r.data == o.data && r.size == n, "strview_split_index does not return the first characters");
		sv_check(s.data == o.data + n && s.size == o.size - n, "strview_split_index does not leave the rest");
	}
	else
	{
		sv_check(s.data == o.data && s.size == n, "strview_split_index with a negative index does not leave the first characters");
		sv_check(r.data == o.data + n && r.size == o.size - n, "strview_split_index with a negative index does not return the last characters");
	}
	sv_reach("end");
}
