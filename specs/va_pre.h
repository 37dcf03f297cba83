/* Pre-included into every translation unit: routes va_arg through a function the analyser models. */
#ifndef VA_PRE_H
#define VA_PRE_H
#include <stdarg.h>
#include <stddef.h>
#ifndef __LP64__
/* where va_list is a plain pointer it is made an array, as it is elsewhere, so that it is always passed by its address */
typedef struct { char* p; } sv_va_list[1];
#define va_list sv_va_list
#define _VA_LIST_DEFINED
#undef va_start
#undef va_end
#undef va_copy
#define va_start(ap, last) __builtin_va_start(*(__builtin_va_list*)(ap), last)
#define va_end(ap) __builtin_va_end(*(__builtin_va_list*)(ap))
#define va_copy(d, s) __builtin_va_copy(*(__builtin_va_list*)(d), *(__builtin_va_list*)(s))
#endif
#undef va_arg
void* __sv_va_arg(va_list ap, size_t n);
#define va_arg(ap, T) (*(T*)__sv_va_arg(ap, sizeof(T)))
#endif
