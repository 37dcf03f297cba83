/* C26: capacity management of dynamic buffers. */
#include "ops.h"
#ifndef STRBUF_CAPACITY_GROW_STEP
#define STRBUF_CAPACITY_GROW_STEP 16
#endif
/* an operation that needs room keeps the capacity when it is enough; otherwise the new one is at least what is needed,
   a multiple of the step (or INT_MAX when the multiple would exceed it) */
static void grown(strbuf_t* b, int cap)
{
	sv_check(b->capacity >= cap, "an operation that adds text reduced the capacity");
	if(b->capacity != cap)
	{
		sv_check(b->capacity % STRBUF_CAPACITY_GROW_STEP == 0 || b->capacity == INT_MAX, "the new capacity is not a multiple of the grow step");
		sv_check(b->size == 0 || b->size > cap, "the capacity grew although there was room");
		sv_check((long)b->capacity - b->size < STRBUF_CAPACITY_GROW_STEP || b->size == 0, "the capacity grew by more than the next multiple of the grow step");
	}
	sv_reach("end");
}
#define E(n, c) void h_##n(void) { strbuf_t* b = dyn_buf(); int cap = b->capacity; c; grown(b, cap); }
E(append, strbuf_append_strview(&b, S))
E(append_cstr, strbuf_append_cstr(&b, Z))
E(prepend, strbuf_prepend_strview(&b, S))
E(prepend_cstr, strbuf_prepend_cstr(&b, Z))
E(insert, strbuf_insert_at_index_strview(&b, sv_int(), S))
E(insert_cstr, strbuf_insert_at_index_cstr(&b, sv_int(), Z))
E(before, strbuf_insert_before_strview(&b, D, S))
E(before_cstr, strbuf_insert_before_cstr(&b, D, Z))
E(after, strbuf_insert_after_strview(&b, D, S))
E(after_cstr, strbuf_insert_after_cstr(&b, D, Z))
E(assign, strbuf_assign(&b, S))
E(append_char, strbuf_append_char(&b, sv_char()))
E(cat, strbuf_cat(&b, S, S))
OPS_FMT(E)
void h_shrink(void)
{
	strbuf_t* b = dyn_buf();
	int n = b->size;
	strbuf_shrink(&b);
	sv_check(b->size == n && b->capacity == n, "strbuf_shrink has to leave a capacity equal to the size");
	sv_reach("end");
}
void h_shrink_noop(void)
{
	int n = sv_range(0, INT_MAX);
	strbuf_t *b = dyn_buf_n(n, n), *o = b;
	strbuf_shrink(&b);
	sv_check(b == o && sv_count(3) == 0 && sv_count(1) == 0, "a buffer without spare capacity has nothing to shrink");
	sv_reach("end");
}
void h_grow(void)
{
	strbuf_t *b = dyn_buf(), *o = b;
	int cap = b->capacity, n = b->size, want = sv_int();
	strview_t r = strbuf_grow(&b, want);
	sv_check(b->size == n, "strbuf_grow changed the size");
	if(want <= cap) sv_check(b == o && b->capacity == cap, "strbuf_grow to less than the capacity changed the buffer");
	else sv_check(b->capacity >= want, "strbuf_grow did not provide the capacity asked for");
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
/* nothing that fits moves the buffer */
#define FITS(n, c) void h_fits_##n(void) { strbuf_t *b = dyn_buf(), *o = b; strview_t s = sv_choice(2) ? any_valid("text") : self_view(b); sv_assume((long)b->size + s.size <= b->capacity); c; sv_check(b == o && sv_count(1) == 0 && sv_count(2) == 0 && sv_count(3) == 0, "the buffer had room, but its allocator was called"); sv_reach("end"); }
FITS(append, strbuf_append_strview(&b, s))
FITS(prepend, strbuf_prepend_strview(&b, s))
FITS(insert, strbuf_insert_at_index_strview(&b, sv_int(), s))
FITS(before, strbuf_insert_before_strview(&b, self_view(b), s))
FITS(after, strbuf_insert_after_strview(&b, self_view(b), s))
FITS(assign, strbuf_assign(&b, s))
