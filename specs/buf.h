#include "common.h"
#include "strbuf.h"
/* The one allocator the buffers under analysis were created with.  Every call is checked against the protocol:
   the owner is the buffer's own allocator, the block passed is a live block of that allocator, sizes do not wrap. */
static char owner_tag;
static void* model_alloc(struct strbuf_allocator_t* self, void* p, size_t n)
{
	sv_check(self->allocator == model_alloc && self->app_data == &owner_tag, "allocator called with something else than its own instance");
	return sv_alloc(p, n, self->app_data);
}
static strbuf_allocator_t the_allocator = {.app_data = &owner_tag, .allocator = model_alloc};

/* Any buffer in a legal state: 0 <= size <= capacity, terminated, unknown content. */
static inline strbuf_t* fill_buf(strbuf_t* b, int size, int cap)
{
	b->size = size;
	b->capacity = cap;
	sv_bytes(b->cstr, size);
	b->cstr[size] = 0;
	return b;
}
static inline strbuf_t* dyn_buf_n(int size, int cap)
{
	strbuf_t* b = sv_heap(sizeof(strbuf_t) + (size_t)cap + 1, &owner_tag);
	b->allocator.app_data = &owner_tag;
	b->allocator.allocator = model_alloc;
	return fill_buf(b, size, cap);
}
static inline strbuf_t* fix_buf_n(int size, int cap)
{
	strbuf_t* b = sv_raw(sizeof(strbuf_t) + (unsigned long)cap + 1, 0, "fixed buffer");
	b->allocator.app_data = NULL;
	b->allocator.allocator = NULL;
	return fill_buf(b, size, cap);
}
static inline strbuf_t* dyn_buf(void)
{
	int cap = sv_range(0, INT_MAX), size = sv_range(0, INT_MAX);
	sv_assume(size <= cap);
	return dyn_buf_n(size, cap);
}
static inline strbuf_t* fix_buf(void)
{
	int cap = sv_range(0, INT_MAX), size = sv_range(0, INT_MAX);
	sv_assume(size <= cap);
	return fix_buf_n(size, cap);
}
static inline strbuf_t* any_buf(void) { return sv_choice(2) ? dyn_buf() : fix_buf(); }
static inline bool is_dyn(strbuf_t* b) { return b->allocator.allocator != NULL; }
/* A view of part of the buffer's own content */
static inline strview_t self_view(strbuf_t* b)
{
	int from = sv_range(0, INT_MAX), n = sv_range(0, INT_MAX);
	strview_t v;
	sv_assume(from <= b->size);
	sv_assume(n <= b->size - from);
	v.data = &b->cstr[from];
	v.size = n;
	return v;
}
/* A view from anywhere: separate memory, the buffer itself, or invalid */
static inline strview_t any_src(strbuf_t* b)
{
	switch(sv_choice(3))
	{
		case 0: return any_valid("source text");
		case 1: return self_view(b);
		default: return STRVIEW_INVALID;
	}
}
/* The legal-state invariant, and that the returned view is the buffer content */
static inline void check_buf(strbuf_t* b)
{
	sv_check(b->size >= 0, "buffer size is negative");
	sv_check(b->size <= b->capacity, "buffer size exceeds its capacity");
	if(b->size >= 0 && b->size <= b->capacity)
		sv_check(b->cstr[b->size] == 0, "buffer content is not terminated");
	sv_check(sv_rsize(b) >= (long)sizeof(strbuf_t) + (long)b->capacity + 1, "buffer capacity exceeds the storage it has");
}
static inline void check_ret(strbuf_t* b, strview_t r)
{
	sv_check(r.data == b->cstr && r.size == b->size, "the returned view is not the buffer content");
}
