/* C20: no buffer operation accesses memory outside the buffer, its own allocations and its arguments. */
#include "ops.h"
#define E(n, c) void h_##n(void) { strbuf_t* b = any_buf(); c; sv_reach("end"); }
OPS_ALL(E)
void h_grow(void) { strbuf_t* b = any_buf(); strbuf_grow(&b, sv_int()); sv_reach("end"); }
void h_using(void) { strbuf_t* b = any_buf(); strbuf_append_using(&b, fetcher, NULL); sv_reach("end"); }
