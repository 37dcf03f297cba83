/* C10: find_first / find_last / contains */
#include "common.h"
static bool at(strview_t h, strview_t n, int k)
{
	int j;
	for(j = 0; j < n.size; j++) if(h.data[k + j] != n.data[j]) return false;
	return true;
}
static int place(strview_t h, strview_t n, bool last)
{
	int k;
	if(!h.data || !n.data) return -1;
	for(k = last ? h.size - n.size : 0; last ? k >= 0 : k <= h.size - n.size; last ? k-- : k++)
		if(at(h, n, k)) return k;
	return -1;
}
static void result(strview_t h, strview_t n, strview_t r, bool last)
{
	int k = place(h, n, last);
	if(k < 0) sv_check(IS_INVALID(r), "something is found that is not there");
	else sv_check(r.data == h.data + k && r.size == n.size, last ? "the last occurrence is not found" : "the first occurrence is not found");
}
void b5_first(void) { strview_t h = any_view("haystack"), n = any_view("needle"); result(h, n, strview_find_first_strview(h, n), false); sv_reach("end"); }
void b5_last(void) { strview_t h = any_view("haystack"), n = any_view("needle"); result(h, n, strview_find_last_strview(h, n), true); sv_reach("end"); }
void b5_first_cstr(void) { strview_t h = any_view("haystack"); const char* z = any_cstr("needle"); result(h, cstr(z), strview_find_first_cstr(h, z), false); sv_reach("end"); }
void b5_last_cstr(void) { strview_t h = any_view("haystack"); const char* z = any_cstr("needle"); result(h, cstr(z), strview_find_last_cstr(h, z), true); sv_reach("end"); }
void b5_contains(void) { strview_t h = any_view("haystack"), n = any_view("needle"); sv_check(strview_contains(h, n) == (place(h, n, false) >= 0), "strview_contains is not whether the needle occurs"); sv_reach("end"); }
void b6_first2(void) { strview_t h = any_view("haystack"), n = any_view_n(2, "needle"); result(h, n, strview_find_first_strview(h, n), false); sv_reach("end"); }
void b6_last2(void) { strview_t h = any_view("haystack"), n = any_view_n(2, "needle"); result(h, n, strview_find_last_strview(h, n), true); sv_reach("end"); }
#define LIT(name, text) void b8_first_##name(void) { strview_t h = any_valid("haystack"), n = {text, sizeof(text) - 1}; result(h, n, strview_find_first_strview(h, n), false); sv_reach("end"); } \
                        void b8_last_##name(void) { strview_t h = any_valid("haystack"), n = {text, sizeof(text) - 1}; result(h, n, strview_find_last_strview(h, n), true); sv_reach("end"); }
LIT(repeated, "aab")
LIT(periodic, "abab")
LIT(distinct, "abcde")
LIT(binary, "\xff\0a")
/* any size */
void h_empty_needle(void)
{
	strview_t h = any_valid("haystack"), n = {"", 0}, r;
	r = strview_find_first_strview(h, n);
	sv_check(r.data == h.data && r.size == 0, "the empty needle is not found first at the start");
	r = strview_find_last_strview(h, n);
	sv_check(r.data == h.data + h.size && r.size == 0, "the empty needle is not found last at the end");
	sv_check(strview_contains(h, n), "the empty needle is not contained");
	sv_reach("end");
}
void h_longer(void)
{
	strview_t h = any_view("haystack"), n = any_view("needle");
	sv_assume(n.size > h.size);
	sv_check(IS_INVALID(strview_find_first_strview(h, n)) && IS_INVALID(strview_find_last_strview(h, n)) && !strview_contains(h, n), "a needle longer than the haystack is found");
	sv_check(IS_INVALID(strview_find_first_nocase_strview(h, n)) && IS_INVALID(strview_find_last_nocase_strview(h, n)) && !strview_contains_nocase(h, n), "a needle longer than the haystack is found");
	sv_reach("end");
}
void h_whole(void)
{
	strview_t h = any_valid("haystack");
	sv_check(SAME(strview_find_first_strview(h, h), h) && SAME(strview_find_last_strview(h, h), h) && strview_contains(h, h), "a view is not found in itself");
	sv_reach("end");
}
void h_char_first(void)
{
	strview_t h = any_valid("haystack"), r = strview_find_first_cstr(h, ",");
	if(r.data) { sv_none(h.data, r.data - h.data, ",", "there is an occurrence before the one found"); sv_all(r.data, 1, ",", "what is found is not the needle"); sv_check(r.size == 1, "size of the needle"); }
	else if(h.size) sv_none(h.data, h.size, ",", "the needle occurs but is not found");
	sv_reach("end");
}
void h_char_last(void)
{
	strview_t h = any_valid("haystack"), r = strview_find_last_cstr(h, ",");
	if(r.data) { sv_none(r.data + 1, h.size - (r.data - h.data) - 1, ",", "there is an occurrence after the one found"); sv_all(r.data, 1, ",", "what is found is not the needle"); sv_check(r.size == 1, "size of the needle"); }
	else if(h.size) sv_none(h.data, h.size, ",", "the needle occurs but is not found");
	sv_reach("end");
}
