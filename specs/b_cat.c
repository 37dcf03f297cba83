/* C25: assigning and concatenating: the buffer holds exactly the given texts, in order, as they were before the call,
   also when some of them are parts of the buffer itself. */
#include "ops.h"
#define M "the buffer does not hold exactly the texts given, in order"
struct text { strview_t v; int id; long from; };
static int old, old_n;
static struct text none(void) { struct text t = {STRVIEW_INVALID, 0, 0}; return t; }
static struct text ext(void) { struct text t; t.v = any_valid("text"); t.id = SNAP(t.v.data, t.v.size); t.from = 0; return t; }
static struct text self(strbuf_t* b)
{
	struct text t;
	int from = sv_range(0, INT_MAX), n = sv_range(0, INT_MAX);
	sv_assume(from <= b->size);
	sv_assume(n <= b->size - from);
	t.v.data = b->cstr + from;
	t.v.size = n;
	t.id = old;
	t.from = from;
	return t;
}
static strbuf_t* start(bool dyn)
{
	strbuf_t* b = dyn ? dyn_buf() : fix_buf();
	old_n = b->size;
	old = SNAP(b->cstr, b->size);
	return b;
}
#define P(t) PART((t).id, (t).from, (t).from + (t).v.size)
static void holds1(strbuf_t* b, strview_t r, struct text t)
{
	sv_check(b->size == t.v.size, M);
	if(b->size == t.v.size) sv_content(b->cstr, b->size, M, 1, P(t));
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
static void holds(strbuf_t* b, strview_t r, struct text t, struct text u)
{
	sv_check(b->size == t.v.size + u.v.size, M);
	if(b->size == t.v.size + u.v.size) sv_content(b->cstr, b->size, M, 2, P(t), P(u));
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
static void holds3(strbuf_t* b, strview_t r, struct text t, struct text u, struct text w)
{
	long n = (long)t.v.size + u.v.size + w.v.size;
	sv_check(b->size == n, M);
	if(b->size == n) sv_content(b->cstr, b->size, M, 3, P(t), P(u), P(w));
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
/* assign */
void h_assign_ext(void) { strbuf_t* b = start(sv_choice(2)); struct text t = ext(); if(!is_dyn(b)) sv_assume(t.v.size <= b->capacity); { strview_t r = strbuf_assign(&b, t.v); holds1(b, r, t); } }
void h_assign_self(void) { strbuf_t* b = start(sv_choice(2)); struct text t = self(b); { strview_t r = strbuf_assign(&b, t.v); holds1(b, r, t); } }
static void empty(strbuf_t* b, strview_t r)
{
	sv_check(b->size == 0, "the buffer is not empty");
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
void h_assign_none(void) { strbuf_t* b = start(sv_choice(2)); { strview_t r = strbuf_assign(&b, STRVIEW_INVALID); empty(b, r); } }
/* cat into a dynamic buffer: any of the texts may be part of it */
static struct text any(strbuf_t* b) { switch(sv_choice(3)) { case 0: return ext(); case 1: return self(b); default: return none(); } }
void h_cat1(void)
{
	strbuf_t* b = start(true);
	struct text t = any(b);
	{ strview_t r = strbuf_cat(&b, t.v); holds1(b, r, t); }
}
void h_cat2(void)
{
	strbuf_t* b = start(true);
	struct text t = any(b), u = any(b);
	sv_assume((long)t.v.size + u.v.size <= INT_MAX);
	{ strview_t r = strbuf_cat(&b, t.v, u.v); holds(b, r, t, u); }
}
#define CAT3(n, T, U, W) void h_cat3_##n(void) { strbuf_t* b = start(true); struct text t = T, u = U, w = W; strview_t r; sv_assume((long)t.v.size + u.v.size + w.v.size <= INT_MAX); r = strbuf_cat(&b, t.v, u.v, w.v); holds3(b, r, t, u, w); }
CAT3(eee, ext(), ext(), ext())
CAT3(see, self(b), ext(), ext())
CAT3(ese, ext(), self(b), ext())
CAT3(ees, ext(), ext(), self(b))
CAT3(sse, self(b), self(b), ext())
CAT3(ses, self(b), ext(), self(b))
CAT3(ess, ext(), self(b), self(b))
CAT3(sss, self(b), self(b), self(b))
CAT3(nxx, none(), ext(), self(b))
CAT3(xnx, self(b), none(), ext())
CAT3(xxn, ext(), self(b), none())
void h_vcat2(void)
{
	strbuf_t* b = start(true);
	struct text t = any(b), u = any(b);
	sv_assume((long)t.v.size + u.v.size <= INT_MAX);
	{ strview_t r = call_vcat(&b, 2, t.v, u.v); holds(b, r, t, u); }
}
void h_vcat0(void) { strbuf_t* b = start(sv_choice(2)); { strview_t r = call_vcat(&b, 0); empty(b, r); } }
/* cat into a fixed buffer: texts from elsewhere are stored, texts from the buffer itself can not be, and empty it */
static struct text other(void) { return sv_choice(2) ? ext() : none(); }
void h_fix1(void)
{
	strbuf_t* b = start(false);
	struct text t = other();
	sv_assume(t.v.size <= b->capacity);
	{ strview_t r = strbuf_cat(&b, t.v); holds1(b, r, t); }
}
void h_fix2(void)
{
	strbuf_t* b = start(false);
	struct text t = other(), u = other();
	sv_assume((long)t.v.size + u.v.size <= b->capacity);
	{ strview_t r = strbuf_cat(&b, t.v, u.v); holds(b, r, t, u); }
}
void h_fix3(void)
{
	strbuf_t* b = start(false);
	struct text t = other(), u = other(), w = other();
	sv_assume((long)t.v.size + u.v.size + w.v.size <= b->capacity);
	{ strview_t r = strbuf_cat(&b, t.v, u.v, w.v); holds3(b, r, t, u, w); }
}
void h_fix_self(void)
{
	strbuf_t* b = start(false);
	struct text t = any(b), u = self(b), w = any(b);
	sv_assume((long)t.v.size + u.v.size + w.v.size <= b->capacity);
	sv_assume(u.v.size > 0);
	{ strview_t r = strbuf_cat(&b, t.v, u.v, w.v); empty(b, r); }
}
