/* C28: the printf and prnf families: the buffer holds (its old content and) exactly the text the formatter produces; when that has no room,
   or the formatter fails, the buffer is left empty. */
#define PRNF_TEXT
#include "ops.h"
extern int sv_fmt_last;
static int old, old_n;
static strbuf_t* start(bool app) { strbuf_t* b = any_buf(); old_n = app ? b->size : 0; old = SNAP(b->cstr, old_n); return b; }
static void formatted(strbuf_t* b, strview_t r, int len, int id)
{
	bool fits = len >= 0 && (long)old_n + len <= (is_dyn(b) ? INT_MAX : b->capacity);
	if(fits)
	{
		sv_check(b->size == old_n + len, "the size is not that of the old content and the formatted text");
		if(b->size == old_n + len) sv_content(b->cstr, b->size, "the buffer does not hold the old content and the formatted text", 2, PART(old, 0, old_n), PART(id, 0, len));
	}
	else
		sv_check(b->size == 0, "formatted text that does not fit, or can not be produced, has to leave the buffer empty");
	check_buf(b);
	check_ret(b, r);
	sv_reach("end");
}
static int text(int len) { char* t; if(len <= 0) return old; t = sv_ext(len, 0, "formatted text"); sv_fmt_bytes(t, len, "f"); return SNAP(t, len); }
#define PRINTF(n, app) void h_##n(void) { strbuf_t* b = start(app); strview_t r = strbuf_##n(&b, "f"); formatted(b, r, sv_fmt_last, text(sv_fmt_last)); }
#define VPRINTF(n, app) void h_##n(void) { strbuf_t* b = start(app); strview_t r = call_##n(&b, "f"); formatted(b, r, sv_fmt_last, text(sv_fmt_last)); }
PRINTF(printf, false)
PRINTF(append_printf, true)
VPRINTF(vprintf, false)
VPRINTF(append_vprintf, true)
#define PRNF(n, app, call) void h_##n(void) { strbuf_t* b = start(app); strview_t r; int id; prnf_text = any_valid("formatted text"); id = SNAP(prnf_text.data, prnf_text.size); if(sv_choice(2)) sv_assume((long)old_n + prnf_text.size <= (is_dyn(b) ? INT_MAX : b->capacity)); else sv_assume((long)old_n + prnf_text.size > (is_dyn(b) ? INT_MAX : b->capacity)); r = call; formatted(b, r, prnf_text.size, id); }
PRNF(prnf, false, strbuf_prnf(&b, "f"))
PRNF(append_prnf, true, strbuf_append_prnf(&b, "f"))
PRNF(vprnf, false, call_vprnf(&b, "f"))
PRNF(append_vprnf, true, call_append_vprnf(&b, "f"))
