#include "sv.h"
#include "strview.h"
/* Any valid view of n bytes of its own, read-only memory. */
static inline strview_t any_view_n(long n, const char* name)
{
	strview_t v;
	v.data = sv_ext(n, 1, name);
	v.size = (int)n;
	return v;
}
static inline strview_t any_valid(const char* name) { return any_view_n(sv_range(0, INT_MAX), name); }
/* Any view: valid of any size, or invalid. */
static inline strview_t any_view(const char* name)
{
	return sv_choice(2) ? any_valid(name) : STRVIEW_INVALID;
}
static inline const char* any_cstr(const char* name)
{
	return sv_choice(2) ? sv_cstring(sv_range(0, INT_MAX), name) : NULL;
}
#define UNTOUCHED(v, o) ((v).data == (o).data && (v).size == (o).size)
/* A view of part of another view's memory */
static inline strview_t part_of(strview_t v)
{
	strview_t p = v;
	if(v.data)
	{
		int from = sv_range(0, INT_MAX), n = sv_range(0, INT_MAX);
		sv_assume(from <= v.size);
		sv_assume(n <= v.size - from);
		p.data += from;
		p.size = n;
	}
	return p;
}
static inline bool SAME(strview_t a, strview_t b) { return a.data == b.data && a.size == b.size; }
static inline bool IS_INVALID(strview_t v) { return v.data == NULL && v.size == 0; }
/* r is invalid, or lies inside s */
static inline void contained(strview_t r, strview_t s, const char* m)
{
	if(r.data)
		sv_check(sv_inside(r.data, r.size, s.data, s.size), m);
	else
		sv_check(r.size == 0, m);
}
static inline bool has(strview_t set, char c)
{
	int k;
	for(k = 0; k < set.size; k++)
		if(set.data[k] == c) return true;
	return false;
}
