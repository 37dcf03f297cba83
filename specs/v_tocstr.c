/* C07: strview_to_cstr writes a terminated prefix of the view, never past the destination. */
#include "common.h"
static void copy(long n)
{
	char* d = sv_ext(n, 0, "destination");
	strview_t v = any_view("view");
	int src = SNAP(v.data, v.size), old = SNAP(d, n);
	long k;
	if(v.data && sv_choice(2)) v.size = sv_range(INT_MIN, -1);
	sv_check(strview_to_cstr(d, n, v) == d, "strview_to_cstr does not return the destination");
	k = v.size < 0 ? 0 : v.size;
	if(n > 0)
	{
		if(k > n - 1) k = n - 1;
		sv_check(d[k] == 0, "strview_to_cstr does not terminate the destination after the copied part");
		sv_content(d, k, "strview_to_cstr does not copy the longest prefix that fits", 1, PART(src, 0, k));
		sv_content(d + k + 1, n - k - 1, "strview_to_cstr writes beyond the terminator", 1, PART(old, k + 1, n));
	}
	sv_reach("end");
}
void h_copy(void) { copy(sv_lrange(1, sizeof(void*) == 4 ? PTRDIFF_MAX : 0x100000000)); }
void h_size0(void)
{
	char* d = sv_choice(2) ? sv_ext(4, 0, "destination") : NULL;
	strview_t v = any_view("view");
	int old;
	if(d) old = SNAP(d, 4);
	sv_check(strview_to_cstr(d, 0, v) == d, "strview_to_cstr does not return the destination");
	if(d) sv_content(d, 4, "strview_to_cstr writes to a destination of size 0", 1, PART(old, 0, 4));
	sv_reach("end");
}
void h_null(void) { sv_check(strview_to_cstr(NULL, (size_t)sv_lrange(0, sizeof(void*) == 4 ? PTRDIFF_MAX : 0x100000000), any_view("view")) == NULL, "strview_to_cstr(NULL)"); sv_reach("end"); }
/* the copy of a view without a terminator inside reads back as the same view */
void b4_roundtrip(void)
{
	char* d = sv_ext(5, 0, "destination");
	strview_t v = any_valid("view"), w;
	int k;
	sv_assume_none(v.data, v.size, "");
	strview_to_cstr(d, 5, v);
	for(k = 0; k < v.size; k++) sv_check(d[k] == v.data[k], "strview_to_cstr changes a character");
	sv_check(d[v.size] == 0, "strview_to_cstr does not terminate");
	sv_reach("end");
}
