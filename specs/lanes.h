/* Intrinsics of engine/lanes.cpp */
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include <stddef.h>
uint8_t ob_byte(void);                                                      /* any byte */
void* ob_object(size_t n);                                                  /* a new object of n bytes, any content; nothing around it */
void ob_same(const void* got, const void* want, size_t n, const char* msg); /* equal for every value of the inputs */
void ob_true(int cond, const char* msg);
void ob_reached(void);
