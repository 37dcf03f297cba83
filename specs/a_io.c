/* C50: reading into a buffer and writing a buffer or a view out.  read() and write() are given their POSIX meaning:
   at most the number of bytes asked for, anything less, none, or a failure. */
#include <sys/types.h>
#include "buf.h"
#include <sys/types.h>
#include "strbuf_io.h"
#include "strview_io.h"
static char* at;           /* the bytes a call has to be about */
static long room;
static int fd, got, snap;
static bool readable;
ssize_t read(int f, void* p, size_t n)
{
	sv_event(5);
	sv_check(readable, "read() is called");
	sv_check(f == fd, "another file descriptor is read");
	sv_check(p == at && n == (size_t)room, "read() is not given exactly the free space of the buffer");
	got = sv_range(-1, INT_MAX);
	sv_assume(got <= room);
	if(got > 0)
	{
		sv_bytes(p, got);
		snap = SNAP(p, got);
	}
	return got;
}
ssize_t write(int f, const void* p, size_t n)
{
	sv_event(5);
	sv_check(!readable, "write() is called");
	sv_check(f == fd, "another file descriptor is written");
	sv_check(p == at && n == (size_t)room, "write() is not given exactly the content");
	got = sv_range(-1, INT_MAX);
	sv_assume(got <= room);
	return got;
}
static void start(char* p, long n, bool rd) { fd = sv_int(); at = p; room = n; readable = rd; got = 0; }
static void appended(strbuf_t* b)
{
	strbuf_t* o = b;
	int size = b->size, cap = b->capacity, old = SNAP(b->cstr, size), r;
	start(b->cstr + size, (long)cap - size, true);
	r = strbuf_append_read(&b, fd);
	sv_check(sv_count(5) == 1, "read() has to be called once, also when the buffer is full");
	sv_check(r == got, "the result is not that of read()");
	sv_check(b == o && b->capacity == cap, "the buffer is moved or its capacity changed");
	if(got > 0)
	{
		sv_check(b->size == size + got, "the content does not grow by what was read");
		sv_content(b->cstr, b->size, "the content is not the old content followed by what was read", 2, PART(old, 0, size), PART(snap, 0, got));
	}
	else
	{
		sv_check(b->size == size, "the size changes although nothing was read");
		sv_content(b->cstr, size, "the content changes although nothing was read", 1, PART(old, 0, size));
	}
	sv_check(b->cstr[b->size] == 0, "the content is not terminated");
	sv_check(sv_count(1) == 0 && sv_count(2) == 0 && sv_count(3) == 0, "an allocator is called");
	sv_reach("end");
}
void h_append_read_dynamic(void) { appended(dyn_buf()); }
void h_append_read_fixed(void) { appended(fix_buf()); }
static void written(strbuf_t* b)
{
	strbuf_t* o = b;
	int size = b->size, cap = b->capacity, old = SNAP(b->cstr, size), r;
	start(b->cstr, size, false);
	r = strbuf_write(fd, &b);
	sv_check(sv_count(5) == 1, "write() has to be called once, also when the buffer is empty");
	sv_check(r == got, "the result is not that of write()");
	sv_check(b == o && b->capacity == cap, "the buffer is moved or its capacity changed");
	if(got > 0)
	{
		sv_check(b->size == size - got, "the bytes written are not removed");
		sv_content(b->cstr, b->size, "what is left is not the part that was not written", 1, PART(old, got, size));
	}
	else
	{
		sv_check(b->size == size, "the size changes although nothing was written");
		sv_content(b->cstr, size, "the content changes although nothing was written", 1, PART(old, 0, size));
	}
	sv_check(b->cstr[b->size] == 0, "the content is not terminated");
	sv_check(sv_count(1) == 0 && sv_count(2) == 0 && sv_count(3) == 0, "an allocator is called");
	sv_reach("end");
}
void h_write_dynamic(void) { written(dyn_buf()); }
void h_write_fixed(void) { written(fix_buf()); }
void h_view_write(void)
{
	strview_t v = any_valid("view"), o = v;
	int r, old = SNAP(v.data, v.size);
	start((char*)v.data, v.size, false);
	r = strview_write(fd, &v);
	sv_check(sv_count(5) == 1, "write() has to be called once, also when the view is empty");
	sv_check(r == got, "the result is not that of write()");
	if(got > 0)
	{
		sv_check(v.size == o.size - got, "the bytes written are not removed from the view");
		sv_check(v.size == 0 || v.data == o.data + got, "the view is not left with what was not written");
	}
	else sv_check(SAME(v, o), "the view changes although nothing was written");
	sv_content(o.data, o.size, "the bytes viewed are modified", 1, PART(old, 0, o.size));
	sv_reach("end");
}
void h_view_write_invalid(void)
{
	strview_t v = STRVIEW_INVALID;
	start(NULL, 0, false);
	sv_check(strview_write(fd, &v) == 0 && sv_count(5) == 0, "write() is called for an invalid view");
	sv_check(IS_INVALID(v), "the invalid view changes");
	sv_reach("end");
}
void h_null(void)
{
	strbuf_t* none = NULL;
	start(NULL, 0, sv_choice(2));
	sv_check(strbuf_append_read(NULL, fd) == 0 && strbuf_append_read(&none, fd) == 0, "reading into no buffer");
	sv_check(strbuf_write(fd, NULL) == 0 && strbuf_write(fd, &none) == 0, "writing no buffer");
	sv_check(strview_write(fd, NULL) == 0, "writing no view");
	sv_check(none == NULL && sv_count(5) == 0, "read() or write() is called without a buffer");
	sv_reach("end");
}
