/* C09: comparison of contents. */
#include "common.h"
static bool equal(const char* a, const char* b, int n)
{
	int k;
	for(k = 0; k < n; k++) if(a[k] != b[k]) return false;
	return true;
}
static void match(strview_t a, strview_t b, bool r)
{
	bool x = (a.data == NULL) == (b.data == NULL) && a.size == b.size && equal(a.data, b.data, a.size);
	sv_check(r == x, "strview_is_match is not equality of validity, size and content");
}
void b7_match(void) { strview_t a = any_view("view"), b = any_view("other view"); match(a, b, strview_is_match_strview(a, b)); sv_reach("end"); }
void b7_match_cstr(void) { strview_t a = any_view("view"); const char* z = any_cstr("string"); match(a, cstr(z), strview_is_match_cstr(a, z)); sv_reach("end"); }
void b7_match_part(void) { strview_t a = any_view("view"), b = part_of(a); match(a, b, strview_is_match_strview(a, b)); match(b, a, strview_is_match_strview(b, a)); sv_reach("end"); }
static void starts(strview_t a, strview_t b, bool r)
{
	bool x = b.data == NULL ? a.data == NULL : a.data != NULL || b.size == 0 ? a.size >= b.size && equal(a.data, b.data, b.size) : false;
	sv_check(r == x, "strview_starts_with is not the comparison of the first characters");
}
void b7_starts(void) { strview_t a = any_view("view"), b = any_view("other view"); starts(a, b, strview_starts_with_strview(a, b)); sv_reach("end"); }
void b7_starts_cstr(void) { strview_t a = any_view("view"); const char* z = any_cstr("string"); starts(a, cstr(z), strview_starts_with_cstr(a, z)); sv_reach("end"); }
static int order(strview_t a, strview_t b)
{
	int k, n = a.size < b.size ? a.size : b.size;
	for(k = 0; k < n; k++)
	{
		if((unsigned char)a.data[k] < (unsigned char)b.data[k]) return -1;
		if((unsigned char)a.data[k] > (unsigned char)b.data[k]) return 1;
	}
	return a.size < b.size ? -1 : a.size > b.size ? 1 : 0;
}
void b7_compare(void)
{
	strview_t a = any_view("view"), b = any_view("other view");
	int r = strview_compare(a, b), x = order(a, b);
	sv_check((r > 0) == (x > 0) && (r < 0) == (x < 0), "strview_compare is not the lexicographic order of the contents");
	sv_reach("end");
}
void b5_compare_swap(void)
{
	strview_t a = any_view("view"), b = any_view("other view");
	int r = strview_compare(a, b), q = strview_compare(b, a);
	sv_check((r > 0) == (q < 0) && (r < 0) == (q > 0), "strview_compare is not antisymmetric");
	sv_check((r == 0 && strview_is_valid(a) == strview_is_valid(b)) == strview_is_match_strview(a, b), "strview_compare and strview_is_match disagree");
	sv_reach("end");
}
/* any size */
void h_size(void)
{
	strview_t a = any_valid("view"), b = any_valid("other view");
	if(a.size != b.size) sv_check(!strview_is_match_strview(a, b), "views of different size match");
	if(a.size < b.size) sv_check(!strview_starts_with_strview(a, b), "a view starts with a longer one");
	sv_reach("end");
}
void h_self(void)
{
	strview_t a = any_view("view"), p = part_of(a);
	sv_check(strview_is_match_strview(a, a) && strview_starts_with_strview(a, a) && strview_compare(a, a) == 0, "a view does not match itself");
	if(p.data == a.data) sv_check(strview_starts_with_strview(a, p), "a view does not start with its first part");
	sv_reach("end");
}
void h_validity(void)
{
	strview_t a = any_view("view"), n = STRVIEW_INVALID, e = {"", 0};
	sv_check(strview_is_match_strview(a, n) == !a.data && strview_is_match_strview(n, a) == !a.data && strview_is_match_cstr(a, NULL) == !a.data, "the invalid view matches exactly the invalid view");
	sv_check(strview_starts_with_strview(a, n) == !a.data && strview_starts_with_cstr(a, NULL) == !a.data, "exactly the invalid view starts with the invalid view");
	if(a.data) sv_check(strview_starts_with_strview(a, e) && strview_starts_with_cstr(a, ""), "a valid view starts with the empty view");
	if(a.size) sv_check(strview_compare(a, n) > 0 && strview_compare(n, a) < 0 && strview_compare(a, e) > 0 && strview_compare(e, a) < 0, "nothing is smaller than the empty view");
	sv_reach("end");
}
/* ordering of views of any size follows the first memcmp difference and then the size */
void h_prefix_order(void)
{
	strview_t a = any_valid("view"), p = part_of(a);
	sv_assume(p.data == a.data && p.size < a.size);
	sv_check(strview_compare(a, p) > 0 && strview_compare(p, a) < 0, "a view is not greater than its own prefix");
	sv_reach("end");
}
