#include_next <sys/select.h>
#ifndef VP_SELECT
#define VP_SELECT
#undef FD_ZERO
#define FD_ZERO(s) __builtin_memset((s), 0, sizeof(*(s)))		/* the same, without the loop glibc spells out */
#endif
