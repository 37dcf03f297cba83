/* C14: strview_dequote removes the enclosing pairs of one quotation character. */
#include "common.h"
static strview_t bare(strview_t s)
{
	char q = s.size > 1 ? s.data[0] : 0;
	if(q == '"' || q == '\'')
		while(s.size > 1 && s.data[0] == q && s.data[s.size - 1] == q) { s.data++; s.size -= 2; }
	return s;
}
void b9_dequote(void)
{
	strview_t o = any_view("source"), x = bare(o), r = strview_dequote(o);
	sv_check(strview_is_valid(r) == strview_is_valid(x) && r.size == x.size, "strview_dequote does not remove exactly the enclosing quotation characters");
	if(x.size) sv_check(r.data == x.data, "strview_dequote does not remove exactly the enclosing quotation characters");
	sv_reach("end");
}
void h_unquoted(void)
{
	strview_t o = any_view("source");
	if(o.size > 1) sv_assume(o.data[0] != '"' && o.data[0] != '\'');
	sv_check(SAME(strview_dequote(o), o), "strview_dequote modifies a view that does not start with a quotation character");
	sv_reach("end");
}
void h_unbalanced(void)
{
	strview_t o = any_valid("source");
	sv_assume(o.size > 1);
	sv_assume(o.data[0] != o.data[o.size - 1]);
	sv_check(SAME(strview_dequote(o), o), "strview_dequote modifies a view whose first and last character differ");
	sv_reach("end");
}
void h_symmetric(void)
{
	strview_t o = any_valid("source"), r = strview_dequote(o);
	sv_check(strview_is_valid(r), "a dequoted valid view is not valid");
	if(r.data && r.size) sv_check(r.data - o.data == (o.data + o.size) - (r.data + r.size), "strview_dequote does not remove the same number of characters from both ends");
	sv_reach("end");
}
