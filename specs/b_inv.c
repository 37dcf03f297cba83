/* C21: every operation leaves the buffer in a legal state, and returns a view of exactly its content. */
#include "ops.h"
static void legal(strbuf_t* b, strview_t r)
{
	sv_check(b != NULL, "the buffer pointer was lost");
	sv_check(sv_alive(b), "the buffer pointer refers to released memory");
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
#define E(n, c) void h_##n(void) { strbuf_t* b = any_buf(); strview_t r = c; legal(b, r); }
OPS_ALL(E)
void h_grow_dyn(void) { strbuf_t* b = dyn_buf(); strview_t r = strbuf_grow(&b, sv_int()); legal(b, r); }
void h_grow_fix(void) { strbuf_t* b = fix_buf(); strbuf_grow(&b, sv_int()); legal(b, strbuf_view(&b)); }
void h_using(void)
{
	strbuf_t* b = any_buf();
	strview_t r = strbuf_append_using(&b, fetcher, NULL);
	if(fetch_result < 0 || fetch_result > fetch_space)
	{
		sv_check(IS_INVALID(r), "a failed fetch has to return the invalid view");
		r = strbuf_view(&b);
	}
	legal(b, r);
}
