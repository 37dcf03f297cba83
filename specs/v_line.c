/* C11: strview_split_line: line endings CR, LF, CRLF, LFCR, also when a pair is split over two sources. */
#include "common.h"
/* the protocol: index of the first terminator, or -1 */
static int eol_at(strview_t s, int from)
{
	for(; from < s.size; from++) if(s.data[from] == '\r' || s.data[from] == '\n') return from;
	return -1;
}
static bool pair(char a, char b) { return (a == '\r' && b == '\n') || (a == '\n' && b == '\r'); }
static void line(bool with)
{
	strview_t s = any_view("source"), o = s, r;
	char e = "\0\r\n"[sv_choice(3)], e0 = e;
	int from = 0, k, rest;
	r = strview_split_line(&s, with ? &e : NULL);
	if(with && o.size && pair(e0, o.data[0])) from = 1;
	k = eol_at(o, from);
	if(k < 0)
	{
		sv_check(IS_INVALID(r), "a line is returned although there is no line ending");
		sv_check(SAME(s, o), "the source is modified although there is no line ending");
		if(with) sv_check(e == e0, "the discriminator is modified although there is no line ending");
	}
	else
	{
		sv_check(strview_is_valid(r) && r.size == k - from && r.data == o.data + from, "the line is not the characters up to the first line ending");
		rest = k + 1;
		if(rest < o.size && pair(o.data[k], o.data[rest]))
		{
			rest++;
			if(with) sv_check(e == 0, "the discriminator is not cleared by a complete two character line ending");
		}
		else if(with)
			sv_check(e == o.data[k], "the discriminator does not hold the line ending whose second half may follow");
		sv_check(strview_is_valid(s) && s.size == o.size - rest, "the line ending is not removed exactly");
		if(s.size) sv_check(s.data == o.data + rest, "the remainder does not follow the line ending");
	}
	sv_reach("end");
}
void b5_line(void) { line(true); }
void b5_line_no_state(void) { line(false); }
/* the number of lines does not depend on where the text is cut in two */
static int lines(strview_t* s, char* e)
{
	int n = 0;
	while(strview_is_valid(strview_split_line(s, e))) n++;
	return n;
}
void b3_cut(void)
{
	char t[3] = {sv_char(), sv_char(), 'x'};
	strview_t whole = {t, 3}, a = {t, 1}, b = {t + 1, 2}, r;
	char e = 0, f = 0;
	int n, m;
	n = lines(&whole, &e);
	m = lines(&a, &f);
	sv_assume(a.size == 0);
	sv_check(lines(&b, &f) + m == n, "cutting the text between two lines changes the number of lines");
	sv_reach("end");
}
/* any size */
void h_no_eol(void)
{
	strview_t s = any_valid("source"), o = s;
	char e = sv_char(), e0 = e;
	sv_assume_none(s.data, s.size, "\r\n");
	sv_check(IS_INVALID(strview_split_line(&s, sv_choice(2) ? &e : NULL)) && SAME(s, o) && e == e0, "a source without a line ending gives a line, or is modified");
	sv_reach("end");
}
void h_content(void)
{
	strview_t s = any_valid("source"), o = s, r;
	char e = sv_char();
	r = strview_split_line(&s, sv_choice(2) ? &e : NULL);
	if(r.data)
	{
		sv_none(r.data, r.size, "\r\n", "a line contains a line ending");
		sv_all(r.data + r.size, 1, "\r\n", "a line is not followed by a line ending");
		sv_check(s.size < o.size && strview_is_valid(s), "a line is returned without removing it from the source");
		sv_check((long)s.size + r.size + 3 >= o.size, "more than the line and its ending is removed");
	}
	else
		sv_check(SAME(s, o), "the source is modified although no line is returned");
	sv_reach("end");
}
/* the discriminator only matters when it is CR or LF */
void b5_other_state(void)
{
	strview_t s = any_valid("source"), t = s, r, q;
	char e = sv_char();
	sv_assume(e != '\r' && e != '\n');
	sv_assume(e != '\r' + '\n' && (s.size == 0 || e + s.data[0] != '\r' + '\n'));
	r = strview_split_line(&s, &e);
	q = strview_split_line(&t, NULL);
	sv_check(SAME(r, q) && SAME(s, t), "the discriminator changes the line although it is not a line ending");
	sv_reach("end");
}
