/* C32: stripping deletes every character of the set and keeps all others, in order. */
#include "ops.h"
static bool in(char c, strview_t set) { int k; for(k = 0; k < set.size; k++) if(set.data[k] == c) return true; return false; }
static void stripped(strbuf_t* b, strview_t r, const char* was, int n, strview_t set)
{
	int k, at = 0;
	for(k = 0; k < n; k++)
		if(!in(was[k], set))
		{
			sv_check(at < b->size && b->cstr[at] == was[k], "a character that is not in the set was not kept in its place");
			at++;
		}
	sv_check(b->size == at, "characters of the set were left in the buffer, or more than those were deleted");
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
static strbuf_t* start(char** was, int* n)
{
	strbuf_t* b = any_buf();
	*n = b->size;
	*was = sv_ext(*n, 0, "what the buffer held");
	memcpy(*was, b->cstr, *n);
	return b;
}
void b4_strip(void) { char* was; int n; strbuf_t* b = start(&was, &n); strview_t set = any_view("characters to strip"), r; r = strbuf_strip_strview(&b, set); stripped(b, r, was, n, set); }
void b4_strip_cstr(void) { char* was; int n; strbuf_t* b = start(&was, &n); const char* z = any_z(); strview_t r; r = strbuf_strip_cstr(&b, z); stripped(b, r, was, n, cstr(z)); }
/* any length: no character of the set is left */
void h_none_left(void) { strbuf_t* b = any_buf(); strview_t r = strbuf_strip_cstr(&b, " \t."); sv_none(b->cstr, b->size, " \t.", "a character of the set is left in the buffer"); check_ret(b, r); sv_reach("end"); }
void h_nothing(void) { strbuf_t* b = any_buf(); int n = b->size, id = SNAP(b->cstr, n); strview_t none = sv_choice(2) ? STRVIEW_INVALID : any_view_n(0, "nothing"); strbuf_strip_strview(&b, none); sv_check(b->size == n, "stripping nothing changed the buffer"); if(b->size == n) sv_content(b->cstr, n, "stripping nothing changed the buffer", 1, PART(id, 0, n)); sv_reach("end"); }
