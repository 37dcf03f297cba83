/* C27: when the result has no room - the fixed capacity is too small, or the size would exceed INT_MAX - the buffer is
   left empty and terminated, and the empty view is returned. */
#include "ops.h"
static void empty(strbuf_t* b, strview_t r)
{
	sv_check(b->size == 0, "an operation whose result does not fit has to leave the buffer empty");
	sv_check(strview_is_valid(r) && r.size == 0, "an operation whose result does not fit has to return the empty view");
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
/* the text is added to what the buffer holds */
static strview_t much(strbuf_t* b, bool z)
{
	strview_t s;
	if(z) { s.size = sv_range(0, INT_MAX); s.data = sv_cstring(s.size, "text"); }
	else s = sv_choice(2) ? any_valid("text") : self_view(b);
	if(is_dyn(b)) sv_assume((long)b->size + s.size > INT_MAX);
	else sv_assume((long)b->size + s.size > b->capacity);
	return s;
}
#define ADD(name, z, call) void h_##name(void) { strbuf_t* b = any_buf(); strview_t s = much(b, z), r; r = call; empty(b, r); }
ADD(append, false, strbuf_append_strview(&b, s))
ADD(append_cstr, true, strbuf_append_cstr(&b, s.data))
ADD(prepend, false, strbuf_prepend_strview(&b, s))
ADD(prepend_cstr, true, strbuf_prepend_cstr(&b, s.data))
ADD(insert, false, strbuf_insert_at_index_strview(&b, sv_int(), s))
ADD(insert_cstr, true, strbuf_insert_at_index_cstr(&b, sv_int(), s.data))
ADD(before, false, strbuf_insert_before_strview(&b, self_view(b), s))
ADD(before_cstr, true, strbuf_insert_before_cstr(&b, self_view(b), s.data))
ADD(after, false, strbuf_insert_after_strview(&b, self_view(b), s))
ADD(after_cstr, true, strbuf_insert_after_cstr(&b, self_view(b), s.data))
void h_append_char(void)
{
	strbuf_t* b = any_buf();
	if(is_dyn(b)) sv_assume(b->size == INT_MAX); else sv_assume(b->size == b->capacity);
	{ strview_t r = strbuf_append_char(&b, sv_char()); empty(b, r); }
}
void h_assign(void)
{
	strbuf_t* b = fix_buf();
	strview_t s = any_valid("text");
	sv_assume(s.size > b->capacity);
	{ strview_t r = strbuf_assign(&b, s); empty(b, r); }
}
static strview_t any3(strbuf_t* b) { return any_src(b); }
void h_cat1(void)
{
	strbuf_t* b = fix_buf();
	strview_t s = any3(b);
	sv_assume(s.size > b->capacity);
	{ strview_t r = strbuf_cat(&b, s); empty(b, r); }
}
void h_cat2(void)
{
	strbuf_t* b = any_buf();
	strview_t s = any3(b), t = any3(b);
	sv_assume((long)s.size + t.size > (is_dyn(b) ? INT_MAX : b->capacity));
	{ strview_t r = strbuf_cat(&b, s, t); empty(b, r); }
}
void h_cat3(void)
{
	strbuf_t* b = any_buf();
	strview_t s = any3(b), t = any3(b), u = any3(b);
	sv_assume((long)s.size + t.size + u.size > (is_dyn(b) ? INT_MAX : b->capacity));
	{ strview_t r = strbuf_cat(&b, s, t, u); empty(b, r); }
}
void h_vcat2(void)
{
	strbuf_t* b = any_buf();
	strview_t s = any3(b), t = any3(b);
	sv_assume((long)s.size + t.size > (is_dyn(b) ? INT_MAX : b->capacity));
	{ strview_t r = call_vcat(&b, 2, s, t); empty(b, r); }
}
