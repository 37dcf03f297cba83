/* C12: the _nocase operations treat letters that differ only in case as equal, and no other characters. */
#include "common.h"
#include <ctype.h>
static bool alike(char a, char b) { return toupper((unsigned char)a) == toupper((unsigned char)b); }
static bool equal(const char* a, const char* b, int n)
{
	int k;
	for(k = 0; k < n; k++) if(!alike(a[k], b[k])) return false;
	return true;
}
static void match(strview_t a, strview_t b, bool r)
{
	bool x = (a.data == NULL) == (b.data == NULL) && a.size == b.size && equal(a.data, b.data, a.size);
	sv_check(r == x, "strview_is_match_nocase is not equality of validity, size and case-folded content");
}
void b4_match(void) { strview_t a = any_view("view"), b = any_view("other view"); match(a, b, strview_is_match_nocase_strview(a, b)); sv_reach("end"); }
void b4_match_cstr(void) { strview_t a = any_view("view"); const char* z = any_cstr("string"); match(a, cstr(z), strview_is_match_nocase_cstr(a, z)); sv_reach("end"); }
static void starts(strview_t a, strview_t b, bool r)
{
	bool x = b.data == NULL ? a.data == NULL : a.size >= b.size && equal(a.data, b.data, b.size);
	sv_check(r == x, "strview_starts_with_nocase is not the comparison of the first case-folded characters");
}
void b4_starts(void) { strview_t a = any_view("view"), b = any_view("other view"); starts(a, b, strview_starts_with_nocase_strview(a, b)); sv_reach("end"); }
void b4_starts_cstr(void) { strview_t a = any_view("view"); const char* z = any_cstr("string"); starts(a, cstr(z), strview_starts_with_nocase_cstr(a, z)); sv_reach("end"); }
static int place(strview_t h, strview_t n, bool last)
{
	int k;
	if(!h.data || !n.data) return -1;
	for(k = last ? h.size - n.size : 0; last ? k >= 0 : k <= h.size - n.size; last ? k-- : k++)
		if(equal(h.data + k, n.data, n.size)) return k;
	return -1;
}
static void result(strview_t h, strview_t n, strview_t r, bool last)
{
	int k = place(h, n, last);
	if(k < 0) sv_check(IS_INVALID(r), "something is found that is not there");
	else sv_check(r.data == h.data + k && r.size == n.size, last ? "the last case-folded occurrence is not found" : "the first case-folded occurrence is not found");
}
void b4_first(void) { strview_t h = any_view("haystack"), n = any_view("needle"); result(h, n, strview_find_first_nocase_strview(h, n), false); sv_reach("end"); }
void b4_last(void) { strview_t h = any_view("haystack"), n = any_view("needle"); result(h, n, strview_find_last_nocase_strview(h, n), true); sv_reach("end"); }
void b4_first_cstr(void) { strview_t h = any_view("haystack"); const char* z = any_cstr("needle"); result(h, cstr(z), strview_find_first_nocase_cstr(h, z), false); sv_reach("end"); }
void b4_last_cstr(void) { strview_t h = any_view("haystack"); const char* z = any_cstr("needle"); result(h, cstr(z), strview_find_last_nocase_cstr(h, z), true); sv_reach("end"); }
void b4_contains(void) { strview_t h = any_view("haystack"), n = any_view("needle"); sv_check(strview_contains_nocase(h, n) == (place(h, n, false) >= 0), "strview_contains_nocase is not whether the needle occurs"); sv_reach("end"); }
/* one character against every character, in both positions */
void h_single(void)
{
	char x = sv_char(), y = "aZ@`[{m5\xe1\xc1" [sv_choice(10)];
	strview_t a, b;
	bool e = alike(x, y);
	char p[2] = {x, 0}, q[2] = {y, 0};
	a.data = p; a.size = 1; b.data = q; b.size = 1;
	sv_check(strview_is_match_nocase_strview(a, b) == e && strview_is_match_nocase_strview(b, a) == e, "two characters match if and only if they differ at most in case");
	sv_check(strview_starts_with_nocase_strview(a, b) == e && strview_starts_with_nocase_strview(b, a) == e, "two characters match if and only if they differ at most in case");
	sv_check(strview_is_valid(strview_find_first_nocase_strview(a, b)) == e && strview_is_valid(strview_find_last_nocase_strview(b, a)) == e, "two characters match if and only if they differ at most in case");
	sv_check(strview_is_valid(strview_find_first_nocase_strview(b, a)) == e && strview_is_valid(strview_find_last_nocase_strview(a, b)) == e, "two characters match if and only if they differ at most in case");
	sv_reach("end");
}
void h_validity(void)
{
	strview_t a = any_view("view"), n = STRVIEW_INVALID, e = {"", 0};
	sv_check(strview_is_match_nocase_strview(a, n) == !a.data && strview_is_match_nocase_strview(n, a) == !a.data && strview_is_match_nocase_cstr(a, NULL) == !a.data, "the invalid view matches exactly the invalid view");
	sv_check(strview_starts_with_nocase_strview(a, n) == !a.data && strview_starts_with_nocase_cstr(a, NULL) == !a.data, "exactly the invalid view starts with the invalid view");
	if(a.data) sv_check(strview_starts_with_nocase_strview(a, e) && strview_starts_with_nocase_cstr(a, ""), "a valid view starts with the empty view");
	sv_reach("end");
}
void h_size(void)
{
	strview_t a = any_valid("view"), b = any_valid("other view");
	if(a.size != b.size) sv_check(!strview_is_match_nocase_strview(a, b), "views of different size match");
	if(a.size < b.size) sv_check(!strview_starts_with_nocase_strview(a, b), "a view starts with a longer one");
	sv_check(strview_is_match_nocase_strview(a, a), "a view does not match itself");
	sv_reach("end");
}
/* the case sensitive operations do not fold */
void b4_sensitive(void)
{
	strview_t a = any_view("view"), b = any_view("other view");
	if(strview_is_match_strview(a, b)) sv_check(strview_is_match_nocase_strview(a, b), "matching views do not match ignoring case");
	if(!strview_is_match_nocase_strview(a, b)) sv_check(!strview_is_match_strview(a, b), "views that do not match ignoring case match");
	sv_reach("end");
}
