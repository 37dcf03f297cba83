/* C30: creating and giving up buffers. */
#include "ops.h"
extern strbuf_allocator_t strbuf_default_allocator;
void h_create_empty(void)
{
	size_t cap = sv_u64();
	strbuf_t* b = strbuf_create_empty(cap, &the_allocator);
	if(cap > INT_MAX) { sv_check(b == NULL && sv_live() == 0, "a capacity over INT_MAX has to be refused"); sv_reach("refused"); }
	else
	{
		sv_check(b != NULL, "the buffer was not created");
		sv_check(b->size == 0 && (size_t)b->capacity >= cap, "a new buffer has to be empty, with the capacity asked for");
		sv_check(b->allocator.allocator == model_alloc && b->allocator.app_data == &owner_tag, "a new buffer has to use the allocator given");
		check_buf(b);
		sv_reach("created");
	}
}
void h_create_none(void)
{
	strbuf_allocator_t no = {.app_data = NULL, .allocator = NULL};
	sv_check(strbuf_create_empty(sv_u64(), &no) == NULL, "without an allocator no buffer can be created");
	sv_check(strbuf_create_init(any_view("initial content"), &no) == NULL, "without an allocator no buffer can be created");
	sv_reach("end");
}
/* NULL selects the default allocator */
void h_create_default(void)
{
	strbuf_t* b;
	strview_t v = any_valid("initial content");
	strbuf_default_allocator = the_allocator;
	b = sv_choice(2) ? strbuf_create_empty((size_t)sv_range(0, INT_MAX), NULL) : strbuf_create_init(v, NULL);
	sv_check(b != NULL && b->allocator.allocator == model_alloc && b->allocator.app_data == &owner_tag, "NULL has to select the default allocator");
	check_buf(b);
	sv_reach("end");
}
void h_create_default_none(void)
{
	strbuf_default_allocator.allocator = NULL;
	sv_check(strbuf_create_empty(sv_u64(), NULL) == NULL && strbuf_create_init(any_view("initial content"), NULL) == NULL, "without a default allocator no buffer can be created");
	sv_reach("end");
}
void h_create_init(void)
{
	strview_t v = any_view("initial content");
	int id = v.data ? SNAP(v.data, v.size) : 0;
	strbuf_t* b = strbuf_create_init(v, &the_allocator);
	sv_check(b != NULL, "the buffer was not created");
	sv_check(b->size == v.size, "a new buffer has to hold its initial content");
	if(v.data && b->size == v.size) sv_content(b->cstr, b->size, "a new buffer has to hold its initial content", 1, PART(id, 0, v.size));
	sv_check(b->allocator.allocator == model_alloc && b->allocator.app_data == &owner_tag, "a new buffer has to use the allocator given");
	check_buf(b);
	sv_reach("end");
}
void h_create_fixed(void)
{
	size_t n = sv_u64();
	int off = sv_choice(8);
	char *m, *a;
	strbuf_t* b;
	sv_assume(n <= PTRDIFF_MAX - 8);
	m = sv_raw(n + 8, 0, "storage");
	a = m + off;
	b = strbuf_create_fixed(a, n);
	if(n <= sizeof(strbuf_t) || off % (int)sizeof(void*))
		sv_check(b == NULL, "storage that is too small or not aligned has to be refused");
	else
	{
		sv_check((char*)b == a, "the buffer has to be at the address given");
		sv_check(b->size == 0, "a new buffer has to be empty");
		sv_check((size_t)b->capacity == (n - sizeof(strbuf_t) - 1 > INT_MAX ? INT_MAX : n - sizeof(strbuf_t) - 1), "the capacity has to be the storage less the structure and the terminator, at most INT_MAX");
		sv_check(b->allocator.allocator == NULL && b->allocator.app_data == NULL, "a fixed buffer has no allocator");
		sv_check(b->cstr[0] == 0, "a new buffer has to be terminated");
	}
	sv_reach("end");
}
void h_create_fixed_null(void) { sv_check(strbuf_create_fixed(NULL, sv_u64()) == NULL, "there is no buffer at NULL"); sv_reach("end"); }
void h_to_cstr(void)
{
	strbuf_t *b = any_buf();
	int n = b->size, id = SNAP(b->cstr, n);
	bool dyn = is_dyn(b);
	char *c = b->cstr, *s = strbuf_to_cstr(&b);
	sv_check(b == NULL, "strbuf_to_cstr has to clear the pointer");
	sv_check(s != NULL && sv_alive(s), "strbuf_to_cstr has to return the string");
	sv_content(s, n, "the string is not the content of the buffer", 1, PART(id, 0, n));
	sv_check(s[n] == 0, "the string is not terminated");
	if(!dyn) sv_check(s == c, "the string of a fixed buffer is its content in place");
	else sv_check(sv_roff(s) == 0 && sv_rsize(s) == (long)n + 1 && sv_live() == 1, "the string has to be a block of its own, exactly as large as needed");
	sv_reach("end");
}
void h_destroy(void)
{
	strbuf_t* b = any_buf();
	strbuf_destroy(&b);
	sv_check(b == NULL && sv_live() == 0, "strbuf_destroy has to release the memory and clear the pointer");
	sv_reach("end");
}
/* buffers declared with the macros: legal, empty, fixed, and with storage for all of the capacity */
static strbuf_space_t(0) space_0 = STRBUF_STATIC_INIT(0);
static strbuf_space_t(1) space_1 = STRBUF_STATIC_INIT(1);
static strbuf_space_t(7) space_7 = STRBUF_STATIC_INIT(7);
static strbuf_space_t(500) space_500 = STRBUF_STATIC_INIT(500);
static strbuf_space_t(3 + 4) space_expr = STRBUF_STATIC_INIT(3 + 4);
static strbuf_t* outside_8 = STRBUF_FIXED_CAP(8);
static strbuf_t* outside_expr = STRBUF_FIXED_CAP(1 << 3);
static void declared(strbuf_t* b, int cap)
{
	strbuf_t* o = b;
	char fill[501];
	int n = sv_range(0, 500), id;
	sv_assume(n <= cap);
	sv_check(b->size == 0, "a new buffer has to be empty");
	sv_check(b->capacity == cap, "the capacity is not the one asked for");
	sv_check(b->allocator.allocator == NULL && b->allocator.app_data == NULL, "a fixed buffer has no allocator");
	sv_check(b->cstr[0] == 0, "a new buffer has to be terminated");
	sv_check(sv_rsize(b) - sv_roff(b) >= (long)sizeof(strbuf_t) + cap + 1, "the storage is too small for the capacity");
	sv_bytes(fill, 501);
	id = SNAP(fill, n);
	strbuf_assign(&b, ((strview_t){.data = fill, .size = n}));
	sv_check(b == o && b->size == n, "text that fits is not stored");
	if(b->size == n) sv_content(b->cstr, n, "text that fits is not stored", 1, PART(id, 0, n));
	check_buf(b);
	sv_reach("end");
}
void h_static_0(void) { declared((strbuf_t*)&space_0, 0); }
void h_static_1(void) { declared((strbuf_t*)&space_1, 1); }
void h_static_7(void) { declared((strbuf_t*)&space_7, 7); }
void h_static_500(void) { declared((strbuf_t*)&space_500, 500); }
void h_static_expression(void) { declared((strbuf_t*)&space_expr, 7); }
void h_outside_8(void) { declared(outside_8, 8); }
void h_outside_expression(void) { declared(outside_expr, 8); }
void h_stack_0(void) { declared(STRBUF_FIXED_CAP(0), 0); }
void h_stack_16(void) { declared(STRBUF_FIXED_CAP(16), 16); }
void h_stack_499(void) { declared(STRBUF_FIXED_CAP(499), 499); }
void h_stack_expression(void) { declared(STRBUF_FIXED_CAP(2 + 3), 5); }
