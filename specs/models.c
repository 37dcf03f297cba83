/* C-level models of library functions, analysed together with the code. */
#include "sv.h"
#include "../specs/va_pre.h"
#include "strview.h"
strview_t sv_stream_view(int list);   /* contract files that pass an argument stream define it */
#pragma weak sv_stream_view
void* __sv_va_arg(va_list ap, size_t n)
{
	int stream = sv_va_is_stream(ap);
	if(stream)
	{
		strview_t* p = sv_tmp(sizeof(strview_t));
		sv_check(n == sizeof(strview_t), "va_arg type is not the type of the argument passed");
		*p = sv_stream_view(stream - 1);
		return p;
	}
	return sv_va_next(ap, n);
}
int sv_fmt_last;   /* the length of the text formatted last, negative if the formatter failed */
int vsnprintf(char* dst, size_t n, const char* fmt, va_list ap)
{
	int len = sv_fmt_len(ap, fmt);
	sv_fmt_last = len;
	if(len >= 0 && n)
	{
		size_t w = (size_t)len < n ? (size_t)len : n - 1;
		sv_fmt_bytes(dst, w, fmt);
		dst[w] = 0;
	}
	return len;
}
void* memchr(const void* s, int c, size_t n)
{
	const unsigned char* p = s;
	size_t i;
	for(i = 0; i < n; i++)
		if(p[i] == (unsigned char)c)
			return (void*)(p + i);
	return NULL;
}
char* strchr(const char* s, int c)
{
	size_t n = strlen(s);
	size_t i;
	for(i = 0; i <= n; i++)
		if(s[i] == (char)c)
			return (char*)(s + i);
	return NULL;
}
