/* C02: every view an operation hands back (result, remainder, array element) is invalid or lies inside its source. */
#include "common.h"
#define SRC strview_t s = any_view("source"), o = s; (void)o
#define R(e, m) do { strview_t r_ = (e); contained(r_, o, m " returns a view outside its source"); } while(0)
#define REST(m) contained(s, o, m " leaves a remainder outside its source")
#define V any_view("other view")
#define Z any_cstr("string")
void h_cstr(void) { const char* z = Z; strview_t r = cstr(z); if(z) sv_check(r.data == z && (size_t)r.size == strlen(z), "cstr() does not view exactly the string"); else sv_check(IS_INVALID(r), "cstr(NULL) is not the invalid view"); sv_reach("end"); }
void h_trim(void) { SRC; R(strview_trim_strview(s, V), "strview_trim"); sv_reach("end"); }
void h_trim_start(void) { SRC; R(strview_trim_start_strview(s, V), "strview_trim_start"); sv_reach("end"); }
void h_trim_end(void) { SRC; R(strview_trim_end_strview(s, V), "strview_trim_end"); sv_reach("end"); }
void h_trim_cstr(void) { SRC; R(strview_trim_cstr(s, Z), "strview_trim"); sv_reach("end"); }
void h_trim_start_cstr(void) { SRC; R(strview_trim_start_cstr(s, Z), "strview_trim_start"); sv_reach("end"); }
void h_trim_end_cstr(void) { SRC; R(strview_trim_end_cstr(s, Z), "strview_trim_end"); sv_reach("end"); }
void h_sub(void) { SRC; R(strview_sub(s, sv_int(), sv_int()), "strview_sub"); sv_reach("end"); }
static void found(strview_t r, strview_t o, strview_t n, const char* m) { contained(r, o, m); if(r.data) sv_check(r.size == n.size, "the view of a needle does not have the size of the needle"); }
#define FIND(f) void h_##f(void) { SRC; strview_t n = V; found(strview_##f##_strview(s, n), o, n, "strview_" #f " returns a view outside the haystack"); sv_reach("end"); } \
                void h_##f##_cstr(void) { SRC; const char* z = Z; found(strview_##f##_cstr(s, z), o, cstr(z), "strview_" #f " returns a view outside the haystack"); sv_reach("end"); }
FIND(find_first)
FIND(find_last)
FIND(find_first_nocase)
FIND(find_last_nocase)
void h_split_first(void) { SRC; R(strview_split_first_delim(&s, Z, sv_choice(2)), "strview_split_first_delim"); REST("strview_split_first_delim"); sv_reach("end"); }
void h_split_last(void) { SRC; R(strview_split_last_delim(&s, Z, sv_choice(2)), "strview_split_last_delim"); REST("strview_split_last_delim"); sv_reach("end"); }
void h_split_index(void) { SRC; R(strview_split_index(&s, sv_int()), "strview_split_index"); REST("strview_split_index"); sv_reach("end"); }
void h_split_left(void) { SRC; R(strview_split_left(&s, sv_choice(2) ? part_of(o) : V), "strview_split_left"); REST("strview_split_left"); sv_reach("end"); }
void h_split_right(void) { SRC; R(strview_split_right(&s, sv_choice(2) ? part_of(o) : V), "strview_split_right"); REST("strview_split_right"); sv_reach("end"); }
void h_split_line(void) { SRC; char e = sv_char(); R(strview_split_line(&s, sv_choice(2) ? &e : NULL), "strview_split_line"); REST("strview_split_line"); sv_reach("end"); }
void h_pop(void) { SRC; strview_pop_first_char(&s); REST("strview_pop_first_char"); sv_reach("end"); }
void h_dequote(void) { SRC; R(strview_dequote(s), "strview_dequote"); sv_reach("end"); }
void h_split_all(void)
{
	strview_t d[3], o = any_view("source");
	int k, n = strview_split_all(3, d, o, sv_choice(2) ? "," : NULL, sv_choice(2));
	sv_check(n >= 0 && n <= 3, "strview_split_all reports more elements than the array has");
	for(k = 0; k < 3; k++)
		if(k < n) contained(d[k], o, "strview_split_all stores a view outside its source");
	sv_reach("end");
}
