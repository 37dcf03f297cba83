/* C23: the allocator protocol of dynamic buffers.  Every allocator call is checked in model_alloc() and sv_alloc(): own instance,
   live block of this allocator, size that did not wrap.  After every operation exactly the buffer itself is allocated. */
#include "ops.h"
static void one_block(strbuf_t* b)
{
	sv_check(sv_live() == 1, "memory other than the buffer is allocated after the operation, or the buffer is not");
	sv_check(sv_alive(b) && sv_isheap(b), "the buffer pointer does not refer to the allocated block");
	sv_check(b->allocator.allocator == model_alloc && b->allocator.app_data == &owner_tag, "the buffer lost its allocator");
	sv_check(sv_rsize(b) == (long)sizeof(strbuf_t) + (long)b->capacity + 1, "the allocated size does not match the capacity");
	sv_reach("end");
}
#define E(n, c) void h_##n(void) { strbuf_t* b = dyn_buf(); c; one_block(b); }
OPS_ALL(E)
E(grow, strbuf_grow(&b, sv_int()))
E(using, strbuf_append_using(&b, fetcher, NULL))
void h_destroy(void)
{
	strbuf_t* b = dyn_buf();
	strbuf_destroy(&b);
	sv_check(b == NULL, "strbuf_destroy has to clear the pointer");
	sv_check(sv_live() == 0, "strbuf_destroy has to release the buffer");
	sv_reach("end");
}
void h_to_cstr(void)
{
	strbuf_t* b = dyn_buf();
	int n = b->size;
	char* s = strbuf_to_cstr(&b);
	sv_check(b == NULL, "strbuf_to_cstr has to clear the pointer");
	sv_check(sv_live() == 1 && sv_alive(s) && sv_isheap(s), "the result has to be the only block allocated");
	sv_check(sv_roff(s) == 0, "the result has to be a block that can be passed to free()");
	sv_check(sv_rsize(s) == (long)n + 1, "the block has to be exactly as large as the string");
	sv_reach("end");
}
void h_create_empty(void)
{
	size_t cap = sv_u64();
	strbuf_t* b = strbuf_create_empty(cap, &the_allocator);
	if(cap <= INT_MAX)
	{
		sv_check(b != NULL, "the buffer has to be created");
		sv_check((size_t)b->capacity >= cap, "the capacity asked for has to be provided");
		sv_check(b->size == 0, "a new buffer is empty");
		check_buf(b);
		one_block(b);
	}
	else
		sv_check(b == NULL && sv_count(1) == 0, "a capacity that is too large has to be refused");
	sv_reach("end");
}
void h_create_init(void)
{
	strview_t v = any_view("initial content");
	strbuf_t* b = strbuf_create_init(v, &the_allocator);
	sv_check(b != NULL, "the buffer has to be created");
	check_buf(b);
	one_block(b);
}
