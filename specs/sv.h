/* Vocabulary of the contract files.  None of these functions has a body: the analyser in /verif/engine gives each of
   them its abstract meaning.  Nothing under /verif/specs is ever executed. */
#ifndef SV_H
#define SV_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <limits.h>
#include <string.h>
typedef long double sv_ldouble;
#if !defined(__LP64__) && !defined(SV_KEEP_LONG)
#define long __INT64_TYPE__   /* the contract files count in 64 bits on any target */
#endif

/* unknown values */
int sv_int(void);                          /* any int */
int sv_range(long lo, long hi);            /* any int in [lo,hi] (constant bounds) */
long sv_lrange(long lo, long hi);
long sv_i64(void);
unsigned long sv_u64(void);
char sv_char(void);
int sv_choice(int n);                      /* separate analysis of each of 0..n-1 */
double sv_float(void);
void sv_fp_is(sv_ldouble v, const char* msg, int nparts, ...);  /* v is the sum of the parts factor*10^exponent (long, int) */
void sv_fp_bits(sv_ldouble v, int bits, const char* msg);       /* no rounding on the way kept fewer bits */
void sv_assume(bool c);
/* obligations */
void sv_check(bool c, const char* msg);
void sv_fail(const char* msg);
void sv_reach(const char* label);          /* this point has to be reached by the analysis, or the check is void */
void sv_api(const char* name);             /* label used in reports */
/* memory */
char* sv_ext(long n, int ro, const char* name);            /* n bytes of caller-owned memory with unknown content */
void* sv_raw(unsigned long n, int unaligned, const char* name);     /* raw storage */
void* sv_tmp(long n);
char* sv_cstring(long n, const char* name);                /* terminated string of length n, read only */
void* sv_alloc(void* p, size_t n, void* owner);            /* allocator protocol model: checks every call */
void* sv_heap(size_t n, void* owner);
void sv_bytes(void* p, size_t n);                          /* fill with unknown content */
long sv_rsize(const void* p);
long sv_roff(const void* p);
int sv_alive(const void* p);
int sv_isheap(const void* p);
int sv_sameobj(const void* p, const void* q);
int sv_count(int k);                                       /* 1 allocations 2 releases 3 reallocations, or user events */
void sv_count_reset(void);
void sv_event(int k);
int sv_live(void);                                         /* heap blocks alive */
void sv_freeze(const void* p, int on);
bool sv_inside(const void* p, long n, const void* q, long m); /* provable: [p,p+n) lies in [q,q+m) */
/* content */
int sv_snap(const void* p, long n);
void sv_content(const void* p, long n, const char* msg, int nparts, ...);  /* parts: snapshot id, from, to (long) */
void sv_all(const void* p, long n, const char* set, const char* msg);
void sv_none(const void* p, long n, const char* set, const char* msg);
void sv_assume_all(const void* p, long n, const char* set);
void sv_assume_none(const void* p, long n, const char* set);
void sv_unroll(int n);
/* argument lists */
void sv_va_stream(va_list ap);
int sv_va_is_stream(va_list ap);
int sv_va_status(va_list ap);
void* sv_va_next(va_list ap, size_t n);
int sv_fmt_len(va_list ap, const char* fmt);
void sv_fmt_bytes(char* dst, size_t n, const char* fmt);

#define SNAP(p,n) sv_snap((p),(long)(n))
#define PART(id,from,to) (int)(id),(long)(from),(long)(to)
#endif
