/* C24: inserting, appending, prepending: old content up to the index, the text as it was before the call, the rest of the old content.
   C27 (b_room.c) decides when there is no room. */
#include "ops.h"
#define M "the buffer does not hold its old content with the text inserted at the index"
/* text to insert, and what it held before the call */
static strview_t src;
static int src_id, src_from;
static int old, old_n;
static void before(strbuf_t* b, strview_t s)
{
	src = s;
	old_n = b->size;
	old = SNAP(b->cstr, b->size);
	src_id = 0; src_from = 0;
}
static void take_ext(strbuf_t* b, bool z)
{
	strview_t s;
	if(z) { s.size = sv_range(0, INT_MAX); s.data = sv_cstring(s.size, "text"); }
	else s = any_valid("text");
	before(b, s);
	src_id = SNAP(s.data, s.size);
}
static void take_self(strbuf_t* b)
{
	int from = sv_range(0, INT_MAX), n = sv_range(0, INT_MAX);
	strview_t s;
	sv_assume(from <= b->size);
	sv_assume(n <= b->size - from);
	s.data = b->cstr + from;
	s.size = n;
	before(b, s);
	src_id = old; src_from = from;
}
static void take(strbuf_t* b, bool z)
{
	if(z || sv_choice(2)) take_ext(b, z); else take_self(b);
	sv_assume((long)b->size + src.size <= INT_MAX);
	if(!is_dyn(b)) sv_assume(b->size + src.size <= b->capacity);
}
static void inserted(strbuf_t* b, strview_t r, long k)
{
	sv_check(b->size == old_n + src.size, "the size is not the sum of the old size and the text");
	if(b->size == old_n + src.size)
		sv_content(b->cstr, b->size, M, 3, PART(old, 0, k), PART(src_id, src_from, (long)src_from + src.size), PART(old, k, old_n));
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
static long place(strbuf_t* b, int index)
{
	long k = index;
	if(k < 0) k += b->size;
	if(k < 0) k = 0;
	if(k > b->size) k = b->size;
	return k;
}
#define START(z) strbuf_t* b = any_buf(); strview_t r; take(b, z)
void h_append(void) { START(false); r = strbuf_append_strview(&b, src); inserted(b, r, old_n); }
void h_append_cstr(void) { START(true); r = strbuf_append_cstr(&b, src.data); inserted(b, r, old_n); }
void h_prepend(void) { START(false); r = strbuf_prepend_strview(&b, src); inserted(b, r, 0); }
void h_prepend_cstr(void) { START(true); r = strbuf_prepend_cstr(&b, src.data); inserted(b, r, 0); }
void h_insert(void)
{
	START(false);
	int index = sv_int();
	long k = place(b, index);
	r = strbuf_insert_at_index_strview(&b, index, src);
	inserted(b, r, k);
}
void h_insert_cstr(void)
{
	START(true);
	int index = sv_int();
	long k = place(b, index);
	r = strbuf_insert_at_index_cstr(&b, index, src.data);
	inserted(b, r, k);
}
#define PLACE int from = sv_range(0, INT_MAX), n = sv_range(0, INT_MAX); strview_t d; sv_assume(from <= b->size); sv_assume(n <= b->size - from); d.data = b->cstr + from; d.size = n
void h_before(void) { START(false); PLACE; r = strbuf_insert_before_strview(&b, d, src); inserted(b, r, from); }
void h_after(void) { START(false); PLACE; r = strbuf_insert_after_strview(&b, d, src); inserted(b, r, from + n); }
void h_before_cstr(void) { START(true); PLACE; r = strbuf_insert_before_cstr(&b, d, src.data); inserted(b, r, from); }
void h_after_cstr(void) { START(true); PLACE; r = strbuf_insert_after_cstr(&b, d, src.data); inserted(b, r, from + n); }
void h_append_char(void)
{
	strbuf_t* b = any_buf();
	strview_t r;
	char c = sv_char();
	old_n = b->size;
	old = SNAP(b->cstr, b->size);
	sv_assume(b->size < INT_MAX);
	if(!is_dyn(b)) sv_assume(b->size < b->capacity);
	r = strbuf_append_char(&b, c);
	sv_check(b->size == old_n + 1 && b->cstr[old_n] == c, "the character is not at the end of the buffer");
	if(b->size == old_n + 1) sv_content(b->cstr, old_n, "appending a character changed what was there before", 1, PART(old, 0, old_n));
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
/* a place outside the buffer, or nothing to insert: the content stays */
static void same(strbuf_t* b, strview_t r, int id, int n)
{
	sv_check(b->size == n, "the content of the buffer changed");
	if(b->size == n) sv_content(b->cstr, n, "the content of the buffer changed", 1, PART(id, 0, n));
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
#define KEEP(name, call) void h_keep_##name(void) { strbuf_t* b = any_buf(); int n = b->size, id = SNAP(b->cstr, n); strview_t none = sv_choice(2) ? STRVIEW_INVALID : any_view_n(0, "empty text"), place = sv_choice(2) ? any_valid("elsewhere") : STRVIEW_INVALID, r; (void)none; (void)place; r = call; same(b, r, id, n); }
KEEP(append, strbuf_append_strview(&b, none))
KEEP(append_cstr, strbuf_append_cstr(&b, sv_choice(2) ? "" : NULL))
KEEP(prepend, strbuf_prepend_strview(&b, none))
KEEP(prepend_cstr, strbuf_prepend_cstr(&b, sv_choice(2) ? "" : NULL))
KEEP(insert, strbuf_insert_at_index_strview(&b, sv_int(), none))
KEEP(insert_cstr, strbuf_insert_at_index_cstr(&b, sv_int(), sv_choice(2) ? "" : NULL))
KEEP(before, strbuf_insert_before_strview(&b, place, any_src(b)))
KEEP(before_cstr, strbuf_insert_before_cstr(&b, place, any_z()))
KEEP(after, strbuf_insert_after_strview(&b, place, any_src(b)))
KEEP(after_cstr, strbuf_insert_after_cstr(&b, place, any_z()))
KEEP(before_none, strbuf_insert_before_strview(&b, self_view(b), none))
KEEP(after_none, strbuf_insert_after_strview(&b, self_view(b), none))
KEEP(shrink, strbuf_shrink(&b))
KEEP(view, strbuf_view(&b))
void h_keep_grow(void) { strbuf_t* b = any_buf(); int n = b->size, id = SNAP(b->cstr, n); strbuf_grow(&b, sv_int()); same(b, strbuf_view(&b), id, n); }
