/* C31: without a buffer every operation returns the invalid view and does nothing. */
#include "ops.h"
#undef S
#undef D
#define S any_view("text")
#define D any_view("place")
#define E(n, c) void h_##n##_none(void) { strbuf_t* b = NULL; sv_check(IS_INVALID(c), "without a buffer the invalid view has to be returned"); sv_check(b == NULL && sv_count(1) == 0 && sv_count(2) == 0 && sv_count(3) == 0, "without a buffer nothing can happen"); sv_reach("end"); }
OPS_ALL(E)
E(grow, strbuf_grow(&b, sv_int()))
E(using, strbuf_append_using(&b, fetcher, NULL))
void h_destroy_none(void) { strbuf_t* b = NULL; strbuf_destroy(sv_choice(2) ? &b : NULL); sv_check(b == NULL, "without a buffer nothing can happen"); sv_reach("end"); }
void h_to_cstr_none(void) { strbuf_t* b = NULL; sv_check(strbuf_to_cstr(sv_choice(2) ? &b : NULL) == NULL, "without a buffer there is no string"); sv_reach("end"); }
static strview_t n_vcat(int n, ...) { va_list va; strview_t r; va_start(va, n); r = strbuf_vcat(NULL, n, va); va_end(va); return r; }
#define NV(f) static strview_t n_##f(const char* fmt, ...) { va_list va; strview_t r; va_start(va, fmt); r = strbuf_##f(NULL, fmt, va); va_end(va); return r; }
NV(vprintf) NV(append_vprintf) NV(vprnf) NV(append_vprnf)
#define N(n, c) void h_##n##_null(void) { sv_check(IS_INVALID(c), "without a buffer the invalid view has to be returned"); sv_reach("end"); }
N(append, strbuf_append_strview(NULL, S))
N(append_cstr, strbuf_append_cstr(NULL, Z))
N(prepend, strbuf_prepend_strview(NULL, S))
N(prepend_cstr, strbuf_prepend_cstr(NULL, Z))
N(insert, strbuf_insert_at_index_strview(NULL, sv_int(), S))
N(insert_cstr, strbuf_insert_at_index_cstr(NULL, sv_int(), Z))
N(before, strbuf_insert_before_strview(NULL, D, S))
N(before_cstr, strbuf_insert_before_cstr(NULL, D, Z))
N(after, strbuf_insert_after_strview(NULL, D, S))
N(after_cstr, strbuf_insert_after_cstr(NULL, D, Z))
N(assign, strbuf_assign(NULL, S))
N(append_char, strbuf_append_char(NULL, sv_char()))
N(strip, strbuf_strip_strview(NULL, S))
N(strip_cstr, strbuf_strip_cstr(NULL, Z))
N(view, strbuf_view(NULL))
N(shrink, strbuf_shrink(NULL))
N(grow, strbuf_grow(NULL, sv_int()))
N(using, strbuf_append_using(NULL, fetcher, NULL))
N(cat, strbuf_cat(NULL, S))
N(vcat, n_vcat(1, S))
N(printf, strbuf_printf(NULL, "f"))
N(append_printf, strbuf_append_printf(NULL, "f"))
N(vprintf, n_vprintf("f"))
N(append_vprintf, n_append_vprintf("f"))
N(prnf, strbuf_prnf(NULL, "f"))
N(append_prnf, strbuf_append_prnf(NULL, "f"))
N(vprnf, n_vprnf("f"))
N(append_vprnf, n_append_vprnf("f"))
