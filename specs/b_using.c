/* C29: strbuf_append_using offers exactly the free space, keeps what was there, takes exactly what the function reports, and treats a report
   that can not be true as a fault. */
#include "ops.h"
static int old, old_n;
static void run(strbuf_t* b)
{
	strbuf_t* o = b;
	int cap = b->capacity;
	strview_t r;
	old_n = b->size;
	old = SNAP(b->cstr, old_n);
	r = strbuf_append_using(&b, fetcher, &owner_tag);
	sv_check(b == o && b->capacity == cap, "strbuf_append_using does not change the capacity");
	sv_check(sv_count(5) == 1, "the fetch function has to be called exactly once");
	sv_check(fetch_vars_seen == (void*)&owner_tag, "the fetch function has to be given the variables of the caller");
	sv_check(fetch_dst == b->cstr + old_n, "the destination is not the end of the buffer content");
	sv_check(fetch_space == cap - old_n, "the space offered is not the free space of the buffer");
	if(fetch_result >= 0 && fetch_result <= cap - old_n)
	{
		sv_check(b->size == old_n + fetch_result, "the size did not grow by what was fetched");
		if(b->size == old_n + fetch_result) sv_content(b->cstr, b->size, "the buffer does not hold its old content and what was fetched", 2, PART(old, 0, old_n), PART(fetch_id, 0, fetch_result));
		check_ret(b, r);
	}
	else
	{
		sv_check(b->size == 0, "a fetch fault has to leave the buffer empty");
		sv_check(IS_INVALID(r), "a fetch fault has to return the invalid view");
	}
	check_buf(b);
	sv_reach("end");
}
void h_dynamic(void) { run(dyn_buf()); }
void h_fixed(void) { run(fix_buf()); }
void h_none(void)
{
	strbuf_t* b = NULL;
	sv_check(IS_INVALID(strbuf_append_using(sv_choice(2) ? &b : NULL, fetcher, NULL)), "without a buffer the invalid view has to be returned");
	sv_check(sv_count(5) == 0, "without a buffer nothing can be fetched");
	sv_reach("end");
}
