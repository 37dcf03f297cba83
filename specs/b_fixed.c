/* C22: a buffer of fixed capacity stays where it is, keeps its capacity, and never involves an allocator. */
#include "ops.h"
static void unmoved(strbuf_t* b, strbuf_t* o, int cap)
{
	sv_check(b == o, "a fixed buffer was moved");
	sv_check(o->capacity == cap, "the capacity of a fixed buffer changed");
	sv_check(o->allocator.allocator == NULL && o->allocator.app_data == NULL, "a fixed buffer got an allocator");
	sv_check(sv_count(1) == 0 && sv_count(2) == 0 && sv_count(3) == 0, "an allocator was called for a fixed buffer");
	sv_reach("end");
}
#define E(n, c) void h_##n(void) { strbuf_t* b = fix_buf(); strbuf_t* o = b; int cap = b->capacity; c; unmoved(b, o, cap); }
OPS_ALL(E)
E(grow, strbuf_grow(&b, sv_int()))
E(using, strbuf_append_using(&b, fetcher, NULL))
void h_destroy(void) { strbuf_t* b = fix_buf(); strbuf_t* o = b; int cap = b->capacity; strbuf_destroy(&b); sv_check(b == NULL, "strbuf_destroy has to clear the pointer"); unmoved(o, o, cap); }
void h_grow_invalid(void) { strbuf_t* b = fix_buf(); sv_check(IS_INVALID(strbuf_grow(&b, sv_int())), "growing a fixed buffer has to return the invalid view"); sv_reach("end"); }
