/* Every operation that modifies or inspects a buffer, applied to buffer b with arguments of all kinds. */
#include "buf.h"
#include "prnf.h"
static const char* any_z(void) { return any_cstr("string"); }
/* a fetch function that obeys its contract, or reports a fault */
static int fetch_space, fetch_result;
static void *fetch_dst, *fetch_vars_seen;
static int fetch_id;
static int fetcher(void* dst, int dst_size, void* vars)
{
	int n = sv_int();
	sv_event(5);
	fetch_dst = dst; fetch_space = dst_size; fetch_vars_seen = vars;
	sv_check(dst_size >= 0, "the fetch function is given a negative size");
	switch(sv_choice(3))
	{
		case 0: sv_assume(n >= 0 && n <= dst_size); if(dst_size > 0) sv_bytes(dst, dst_size); fetch_id = SNAP(dst, n); break;   /* all of the space may have been used */
		case 1: sv_assume(n < 0); if(dst_size > 0) sv_bytes(dst, dst_size); break;
		case 2: sv_assume(n > dst_size); if(dst_size > 0) sv_bytes(dst, dst_size); break;
	}
	fetch_result = n;
	return n;
}
/* The formatter of prnf: calls the handler for every character it produces, and returns how many that were. */
static int prnf_total;
#ifdef PRNF_TEXT
static strview_t prnf_text;
int vfptrprnf(void (*out)(void*, char), void* vars, const char* fmt, va_list va)
{
	int n;
	for(n = 0; n < prnf_text.size; n++)
		out(vars, prnf_text.data[n]);
	return n;
}
#else
int vfptrprnf(void (*out)(void*, char), void* vars, const char* fmt, va_list va)
{
	int n = 0;
	while(n < 0x3FFFFFFF && sv_choice(2))
	{
		out(vars, sv_char());
		n++;
	}
	prnf_total = n;
	return n;
}
#endif
static strview_t call_vcat(strbuf_t** b, int n, ...)
{
	va_list va;
	strview_t r;
	va_start(va, n);
	r = strbuf_vcat(b, n, va);
	va_end(va);
	return r;
}
#define CALLV(f) static strview_t call_##f(strbuf_t** b, const char* fmt, ...) { va_list va; strview_t r; va_start(va, fmt); r = strbuf_##f(b, fmt, va); va_end(va); return r; }
CALLV(vprintf)
CALLV(append_vprintf)
CALLV(vprnf)
CALLV(append_vprnf)
/* a list of any number of views */
static long list_sum[2], list_pos[2];
strview_t sv_stream_view(int list)
{
	strview_t v = any_view("view in a list");
	/* the list and its copy hold the same views: where one was read at least as far as the other now is, it covered at least as much */
	if(list == 0 || list == 1)
	{
		sv_assume(list_sum[list] <= (long)INT_MAX * (INT_MAX - 1L) && list_pos[list] < INT_MAX);   /* at most INT_MAX - 1 views before this one */
		list_pos[list]++;
		list_sum[list] += v.size;
		if(list_pos[list] <= list_pos[!list])
			sv_assume(list_sum[list] <= list_sum[!list]);
	}
	return v;
}
static strview_t call_stream(strbuf_t** b)
{
	va_list va;
	strview_t r;
	sv_va_stream(va);
	r = strbuf_vcat(b, sv_range(0, INT_MAX - 1), va);
	va_end(va);
	return r;
}
#define S any_src(b)
#define D any_src(b)
#define Z any_z()
/* X(name, expression with the buffer pointer variable b) */
#define OPS_EDIT(X) \
	X(append, strbuf_append_strview(&b, S)) \
	X(append_cstr, strbuf_append_cstr(&b, Z)) \
	X(prepend, strbuf_prepend_strview(&b, S)) \
	X(prepend_cstr, strbuf_prepend_cstr(&b, Z)) \
	X(insert, strbuf_insert_at_index_strview(&b, sv_int(), S)) \
	X(insert_cstr, strbuf_insert_at_index_cstr(&b, sv_int(), Z)) \
	X(before, strbuf_insert_before_strview(&b, D, S)) \
	X(before_cstr, strbuf_insert_before_cstr(&b, D, Z)) \
	X(after, strbuf_insert_after_strview(&b, D, S)) \
	X(after_cstr, strbuf_insert_after_cstr(&b, D, Z)) \
	X(assign, strbuf_assign(&b, S)) \
	X(append_char, strbuf_append_char(&b, sv_char())) \
	X(strip, strbuf_strip_strview(&b, any_view("characters to strip"))) \
	X(strip_cstr, strbuf_strip_cstr(&b, Z)) \
	X(view, strbuf_view(&b)) \
	X(shrink, strbuf_shrink(&b))
#define OPS_CAT(X) \
	X(cat1, strbuf_cat(&b, S)) \
	X(cat2, strbuf_cat(&b, S, S)) \
	X(vcat1, call_vcat(&b, 1, S)) \
	X(vcat_list, call_stream(&b)) \
	X(vcat0, call_vcat(&b, 0))
#define OPS_FMT(X) \
	X(printf, strbuf_printf(&b, "f")) \
	X(append_printf, strbuf_append_printf(&b, "f")) \
	X(vprintf, call_vprintf(&b, "f")) \
	X(append_vprintf, call_append_vprintf(&b, "f"))
#define OPS_PRNF(X) \
	X(prnf, strbuf_prnf(&b, "f")) \
	X(append_prnf, strbuf_append_prnf(&b, "f")) \
	X(vprnf, call_vprnf(&b, "f")) \
	X(append_vprnf, call_append_vprnf(&b, "f"))
#define OPS_ALL(X) OPS_EDIT(X) OPS_CAT(X) OPS_FMT(X) OPS_PRNF(X)
