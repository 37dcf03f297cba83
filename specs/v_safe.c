/* C01: every strview operation, called with any legal arguments, only touches memory it was given. */
#include "common.h"

#define V any_view("view")
#define W any_view("other view")
#define Z any_cstr("string")

void h_cstr(void) { const char* z = Z; strview_t v = cstr(z); sv_check(z ? v.data == z && (size_t)v.size == strlen(z) : v.data == NULL && v.size == 0, "cstr() is not a view of the string"); sv_reach("end"); }
void h_to_cstr(void)
{
	long n = sv_lrange(0, 0x100000000);
	char* d = sv_choice(2) ? sv_ext(n, 0, "destination") : NULL;
	strview_t v = V;
	if(sv_choice(2) && v.data) v.size = sv_range(INT_MIN, -1);
	strview_to_cstr(d, n, v);
	sv_reach("end");
}
void h_valid_swap(void) { strview_t a = V, b = W; strview_is_valid(a); strview_swap(&a, &b); strview_swap(&a, &a); sv_reach("end"); }
void h_match(void) { strview_t a = V; strview_is_match_strview(a, W); sv_reach("end"); }
void h_match_cstr(void) { strview_t a = V; strview_is_match_cstr(a, Z); sv_reach("end"); }
void h_match_nc(void) { strview_t a = V; strview_is_match_nocase_strview(a, W); sv_reach("end"); }
void h_match_nc_cstr(void) { strview_t a = V; strview_is_match_nocase_cstr(a, Z); sv_reach("end"); }
void h_starts(void) { strview_t a = V; strview_starts_with_strview(a, W); sv_reach("end"); }
void h_starts_cstr(void) { strview_t a = V; strview_starts_with_cstr(a, Z); sv_reach("end"); }
void h_starts_nc(void) { strview_t a = V; strview_starts_with_nocase_strview(a, W); sv_reach("end"); }
void h_starts_nc_cstr(void) { strview_t a = V; strview_starts_with_nocase_cstr(a, Z); sv_reach("end"); }
void h_compare(void) { strview_t a = V; strview_compare(a, W); sv_reach("end"); }
void h_contains(void) { strview_t a = V; strview_contains(a, W); sv_reach("end"); }
void h_contains_nc(void) { strview_t a = V; strview_contains_nocase(a, W); sv_reach("end"); }
void h_sub(void) { strview_t a = V; strview_sub(a, sv_int(), sv_int()); sv_reach("end"); }
void h_trim(void) { strview_t a = V; strview_trim_strview(a, W); sv_reach("end"); }
void h_trim_start(void) { strview_t a = V; strview_trim_start_strview(a, W); sv_reach("end"); }
void h_trim_end(void) { strview_t a = V; strview_trim_end_strview(a, W); sv_reach("end"); }
void h_trim_cstr(void) { strview_t a = V; strview_trim_cstr(a, Z); sv_reach("end"); }
void h_trim_start_cstr(void) { strview_t a = V; strview_trim_start_cstr(a, Z); sv_reach("end"); }
void h_trim_end_cstr(void) { strview_t a = V; strview_trim_end_cstr(a, Z); sv_reach("end"); }
void h_find_first(void) { strview_t a = V; strview_find_first_strview(a, W); sv_reach("end"); }
void h_find_first_cstr(void) { strview_t a = V; strview_find_first_cstr(a, Z); sv_reach("end"); }
void h_find_first_nc(void) { strview_t a = V; strview_find_first_nocase_strview(a, W); sv_reach("end"); }
void h_find_first_nc_cstr(void) { strview_t a = V; strview_find_first_nocase_cstr(a, Z); sv_reach("end"); }
void h_find_last(void) { strview_t a = V; strview_find_last_strview(a, W); sv_reach("end"); }
void h_find_last_cstr(void) { strview_t a = V; strview_find_last_cstr(a, Z); sv_reach("end"); }
void h_find_last_nc(void) { strview_t a = V; strview_find_last_nocase_strview(a, W); sv_reach("end"); }
void h_find_last_nc_cstr(void) { strview_t a = V; strview_find_last_nocase_cstr(a, Z); sv_reach("end"); }
void h_overlap(void)
{
	strview_t a = V, p = part_of(a);
	switch(sv_choice(5))
	{
		case 0: strview_is_match_strview(a, p); break;
		case 1: strview_starts_with_strview(p, a); break;
		case 2: strview_find_first_strview(a, p); break;
		case 3: strview_compare(a, p); break;
		case 4: strview_trim_strview(a, p); break;
	}
	sv_reach("end");
}
void h_split_first(void) { strview_t a = V; strview_split_first_delim(sv_choice(2) ? &a : NULL, Z, sv_choice(2)); sv_reach("end"); }
void h_split_last(void) { strview_t a = V; strview_split_last_delim(sv_choice(2) ? &a : NULL, Z, sv_choice(2)); sv_reach("end"); }
void h_split_index(void) { strview_t a = V; strview_split_index(sv_choice(2) ? &a : NULL, sv_int()); sv_reach("end"); }
void h_split_left(void) { strview_t a = V; strview_split_left(sv_choice(2) ? &a : NULL, sv_choice(2) ? W : part_of(a)); sv_reach("end"); }
void h_split_right(void) { strview_t a = V; strview_split_right(sv_choice(2) ? &a : NULL, sv_choice(2) ? W : part_of(a)); sv_reach("end"); }
void h_pop(void) { strview_t a = V; strview_pop_first_char(sv_choice(2) ? &a : NULL); sv_reach("end"); }
void h_split_line(void) { strview_t a = V; char e = sv_char(); strview_split_line(sv_choice(2) ? &a : NULL, sv_choice(2) ? &e : NULL); sv_reach("end"); }
void h_split_line_rep(void) { strview_t a = V; char e = 0; int k; for(k = 0; k < 3; k++) strview_split_line(&a, &e); sv_reach("end"); }
static void split_all_of(int n, const char* delims)
{
	strview_t* dst = sv_raw((unsigned long)n * sizeof(strview_t), 0, "array of views");
	strview_split_all(n, dst, V, delims, sv_choice(2));
	sv_reach("end");
}
void h_split_all(void) { split_all_of(sv_choice(3), ","); }
void b3_split_all(void) { split_all_of(sv_range(0, INT_MAX), Z); }
void h_split_all_neg(void) { strview_t d[1]; sv_check(strview_split_all(sv_range(INT_MIN, 0), d, V, ",", 0) == 0, "strview_split_all wrote to an array of no elements"); sv_reach("end"); }
void h_dequote(void) { strview_t a = V; strview_dequote(a); sv_reach("end"); }
/* results are used as arguments of further operations */
void h_chain(void)
{
	strview_t a = V, b;
	b = strview_split_first_delim(&a, ",", false);
	strview_trim_strview(b, cstr_SL(" "));
	strview_sub(a, sv_int(), sv_int());
	strview_split_last_delim(&a, ",", false);
	strview_pop_first_char(&a);
	sv_reach("end");
}
