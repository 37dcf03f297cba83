/* C56: the default allocator (STRBUF_DEFAULT_ALLOCATOR_STDLIB).  malloc(), realloc() and free() are given the meaning of
   the C standard: free() and realloc() take a live block of the heap or NULL, realloc() to nothing is not portable. */
#include "common.h"
#include "strbuf.h"
static char c_heap;
void* realloc(void* p, size_t n)
{
	sv_check(n != 0, "realloc() to size 0, whose meaning depends on the implementation");
	return sv_alloc(p, n, &c_heap);
}
void* malloc(size_t n)
{
	sv_check(n != 0, "malloc() of size 0, whose meaning depends on the implementation");
	return sv_alloc(NULL, n, &c_heap);
}
void free(void* p) { if(p) sv_alloc(p, 0, &c_heap); }
void __assert_fail(const char* expr, const char* file, unsigned line, const char* func)
{
	(void)expr; (void)file; (void)line; (void)func;
	sv_fail("an assertion fails although no allocation has failed");
	sv_assume(false);
}
void __assert(const char* func, const char* file, int line, const char* expr) { __assert_fail(expr, file, line, func); }
extern strbuf_allocator_t strbuf_default_allocator;

static strbuf_t* made(void)
{
	int n = sv_range(0, INT_MAX);
	strview_t v;
	if(sv_choice(2)) return strbuf_create((size_t)n, NULL);
	v = any_valid("initial content");
	return strbuf_create(v, NULL);
}
static void legal(strbuf_t* b)
{
	sv_check(b->size >= 0 && b->size <= b->capacity, "the size is not between 0 and the capacity");
	sv_check(b->cstr[b->size] == 0, "the content is not terminated");
	sv_check(sv_rsize(b) >= (long)sizeof(strbuf_t) + (long)b->capacity + 1, "the block is too small for the capacity");
	sv_check(sv_live() == 1, "a buffer is not exactly one block of the heap");
}
void h_create(void)
{
	strbuf_t* b = made();
	sv_check(b != NULL, "the buffer was not created");
	legal(b);
	sv_check(b->allocator.allocator != NULL && b->allocator.allocator == strbuf_default_allocator.allocator, "the buffer does not keep its allocator");
	sv_reach("end");
}
void h_create_too_large(void)
{
	size_t n = sv_u64();
	sv_assume(n > INT_MAX);
	sv_check(strbuf_create(n, NULL) == NULL && sv_live() == 0 && sv_count(1) == 0, "a capacity over INT_MAX has to be refused");
	sv_reach("end");
}
void h_destroy(void)
{
	strbuf_t* b = made();
	strbuf_destroy(&b);
	sv_check(b == NULL && sv_live() == 0 && sv_count(2) == 1, "destroying the buffer does not free its block, once");
	strbuf_destroy(&b);
	sv_check(b == NULL && sv_count(2) == 1, "destroying the buffer a second time frees something");
	sv_reach("end");
}
void h_grow_shrink(void)
{
	strbuf_t* b = made();
	int n = b->size;
	strbuf_grow(&b, sv_int());
	legal(b);
	strbuf_shrink(&b);
	sv_check(b->size == n && b->capacity == n, "shrinking does not give the capacity the content needs");
	legal(b);
	strbuf_destroy(&b);
	sv_check(sv_live() == 0, "memory is lost");
	sv_reach("end");
}
void h_append(void)
{
	strbuf_t* b = made();
	int n = b->size, old = SNAP(b->cstr, n), id;
	strview_t s = any_valid("text");
	id = SNAP(s.data, s.size);
	sv_assume((long)n + s.size < INT_MAX - 64);
	strbuf_append(&b, s);
	sv_check(b->size == n + s.size, "the content does not grow by the text appended");
	sv_content(b->cstr, b->size, "the content is not the old content and the text appended", 2, PART(old, 0, n), PART(id, 0, s.size));
	legal(b);
	strbuf_destroy(&b);
	sv_check(sv_live() == 0, "memory is lost");
	sv_reach("end");
}
void h_insert_cat(void)
{
	strbuf_t* b = made();
	strview_t s = any_valid("text");
	if(sv_choice(2)) strbuf_insert_at_index(&b, sv_int(), s);
	else strbuf_cat(&b, s, strbuf_view(&b), s);
	legal(b);
	strbuf_append_char(&b, sv_char());
	legal(b);
	strbuf_destroy(&b);
	sv_check(sv_live() == 0, "memory is lost");
	sv_reach("end");
}
/* the default allocator called by an application: it is documented as an allocator like any other */
#define LIMIT (sizeof(void*) == 4 ? PTRDIFF_MAX : 0x100000000)
void h_direct(void)
{
	strbuf_allocator_t* a = &strbuf_default_allocator;
	size_t n = sv_lrange(1, LIMIT), m = sv_lrange(1, LIMIT);
	char *p, *q;
	p = a->allocator(a, NULL, n);
	sv_check(p != NULL && sv_rsize(p) >= (long)n && sv_live() == 1, "allocating does not give a block of the size asked for");
	q = a->allocator(a, p, m);
	sv_check(q != NULL && sv_rsize(q) >= (long)m && sv_live() == 1, "resizing does not give a block of the size asked for");
	a->allocator(a, q, 0);
	sv_check(sv_live() == 0, "a size of 0 does not free the block");
	sv_reach("end");
}
