/* Contracts of what the gateway calls outside the repository.  Appended to the generated text. */
int vp_choice;
int nondet_int(void); u8 nondet_u8(void); u64 nondet_u64(void);
#ifdef HAVE_X_vp_int
u32 X_vp_int(u32 lo, u32 hi) { int vp_pick = nondet_int(); __CPROVER_assume(vp_pick >= (s32)lo && vp_pick <= (s32)hi); vp_choice = vp_pick; return (u32)vp_pick; }
#endif
#ifdef HAVE_X_vp_new
u8 *X_vp_new(u32 n) { u8 *p = malloc((u64)(s64)(s32)n); for (int i = 0; i < VP_WIT; i++) if (i < (s32)n) { u8 vp_pickb = nondet_u8(); vp_choice = vp_pickb; p[i] = vp_pickb; } return p; }
#endif
#ifdef HAVE_X_vp_fill
void X_vp_fill(u8 *p, u32 n) { for (int i = 0; i < (s32)n; i++) { u8 vp_pickb = nondet_u8(); vp_choice = vp_pickb; p[i] = vp_pickb; } }
#endif
#ifdef HAVE_X_vp_len
u32 X_vp_len(u32 hi) { int vp_pick = nondet_int(); __CPROVER_assume(vp_pick >= 0 && vp_pick <= (s32)hi); vp_choice = vp_pick; return (u32)vp_pick; }
#endif
#ifdef HAVE_X_vp_index
u32 X_vp_index(u32 n) { int vp_pick = nondet_int(); vp_choice = vp_pick; return (u32)vp_pick; }
#endif
/* C strings the contracts made: strlen of them is the length they were made with */
u8 *vp_strs[12]; u64 vp_slen[12]; int vp_nstr;
#ifdef HAVE_X_vp_cstr
u8 *X_vp_cstr(u32 n) { u8 *p = malloc((u64)(s64)(s32)n + 1); for (int i = 0; i < VP_WIT; i++) if (i < (s32)n) { u8 vp_pickb = nondet_u8(); __CPROVER_assume(vp_pickb != 0); vp_choice = vp_pickb; p[i] = vp_pickb; } p[(s32)n] = 0; vp_strs[vp_nstr] = p; vp_slen[vp_nstr++] = (s32)n; return p; }
#endif
#ifdef HAVE_X_vp_readable
u1 X_vp_readable(u8 *p, u32 n) { return (s32)n == 0 || __CPROVER_r_ok(p, (s32)n); }
#endif
#ifdef HAVE_X_vp_assume
void X_vp_assume(u1 c) { __CPROVER_assume(c); }
#endif
/* ---- strings as tokens: memory made by vp_tokbuf starts with the token of its content */
u64 __CPROVER_uninterpreted_toklen(u32); u32 __CPROVER_uninterpreted_sub(u32, u64); u32 __CPROVER_uninterpreted_cat(u32, u32);
static u64 vp_tl(u32 t) { u64 n = __CPROVER_uninterpreted_toklen(t); __CPROVER_assume(n <= 65535); return n; }
#ifdef VP_TOKENS
static int vp_istok(u8 *p) { return __CPROVER_OBJECT_SIZE(p) == 4 && __CPROVER_POINTER_OFFSET(p) == 0; }
static u32 vp_head(u32 t, u64 n) { return n >= vp_tl(t) ? t : __CPROVER_uninterpreted_sub(t, n); }
static u32 vp_tokcmp(u32 a, u32 b, u64 n) { return vp_head(a, n) == vp_head(b, n) ? 0 : nondet_u8() & 1 ? 1 : (u32)-1; }
#endif
#ifdef HAVE_X_vp_toklen
u64 X_vp_toklen(u32 t) { return vp_tl(t); }
#endif
#ifdef HAVE_X_vp_tok
u32 X_vp_tok(u8 *p) { return *(u32 *)p; }
#endif
#ifdef HAVE_X_vp_tokbuf
u8 *X_vp_tokbuf(u32 t) { u32 *p = malloc(4); *p = t; return (u8 *)p; }
#endif
#ifdef HAVE_X_vp_name
#ifdef VP_BYTES		/* the second reading of a contract with tokens: names t0 .. t99, in bytes */
u8 *X_vp_name(void) { int vp_pick = nondet_int(); __CPROVER_assume(vp_pick >= 0 && vp_pick <= 99); vp_choice = vp_pick; u8 *p = malloc(4); p[0] = 't'; p[1] = '0' + (vp_pick < 10 ? vp_pick : vp_pick / 10); p[2] = vp_pick < 10 ? 0 : '0' + vp_pick % 10; p[3] = 0; return p; }
#else
u8 *X_vp_name(void) { int vp_pick = nondet_int(); vp_choice = vp_pick; u32 *p = malloc(4); *p = (u32)vp_pick; return (u8 *)p; }
#endif
#endif
#ifdef HAVE_X_vp_sub
u32 X_vp_sub(u32 t, u64 n) { return n == vp_tl(t) ? t : __CPROVER_uninterpreted_sub(t, n); }
#endif
#ifdef HAVE_X_vp_cat
u32 X_vp_cat(u32 a, u32 b) { return __CPROVER_uninterpreted_cat(a, b); }
#endif
/* ---- libc */
#ifdef HAVE_X_malloc
u8 *X_malloc(u64 n) { return malloc(n); }
#endif
/* after vp_calloc_any the content of calloc'ed memory is arbitrary: more than the code can see, and cheaper */
int vp_anycalloc;
#ifdef HAVE_X_vp_calloc_any
void X_vp_calloc_any(void) { vp_anycalloc = 1; }
#endif
#ifdef HAVE_X_calloc
u8 *X_calloc(u64 n, u64 m) { return vp_anycalloc ? malloc(n * m) : calloc(n, m); }
#endif
#ifdef HAVE_X_realloc
u8 *X_realloc(u8 *p, u64 n) { return realloc(p, n); }
#endif
#ifdef HAVE_X_free
void X_free(u8 *p) { free(p); }
#endif
#ifdef HAVE_X__Znwm
u8 *X__Znwm(u64 n) { u8 *p = malloc(n); __CPROVER_assume(p != 0); return p; }
#endif
#ifdef HAVE_X__Znam
u8 *X__Znam(u64 n) { u8 *p = malloc(n); __CPROVER_assume(p != 0); return p; }
#endif
static u8 *vp_gone;	/* what was deleted last */
#ifdef HAVE_X_vp_gone
u8 *X_vp_gone(void) { return vp_gone; }
#endif
#ifdef HAVE_X_vp_newest
u8 *X_vp_newest(void) { return vp_new_last; }
#endif
#ifdef HAVE_X__ZdlPv
void X__ZdlPv(u8 *p) { vp_gone = p; free(p); }
#endif
#ifdef HAVE_X__ZdlPvm
void X__ZdlPvm(u8 *p, u64 n) { vp_gone = p; free(p); }
#endif
#ifdef HAVE_X__ZdaPv
void X__ZdaPv(u8 *p) { free(p); }
#endif
/* memcpy: reads src[0..n), writes dst[0..n).  In a contract that only reads some positions of the result
   (vp_track), the copy is carried out at those offsets of the destination only. */
u64 vp_tr[16]; int vp_ntr;
#ifdef HAVE_X_vp_track
void X_vp_track(u32 off) { vp_tr[vp_ntr++] = (u64)(s64)(s32)off; }
#endif
u8 *X_memcpy(u8 *d, u8 *s, u64 n)
{
	if (n == 0) return d;
	__CPROVER_assert(__CPROVER_r_ok(s, n), "memcpy source readable"); __CPROVER_assert(__CPROVER_w_ok(d, n), "memcpy destination writable");
	if (vp_ntr == 0) memcpy(d, s, n);
	else
	{
		u64 o = __CPROVER_POINTER_OFFSET(d);
		for (int i = 0; i < vp_ntr; i++) if (vp_tr[i] >= o && vp_tr[i] < o + n) d[vp_tr[i] - o] = s[vp_tr[i] - o];
	}
	return d;
}
u8 *X_memmove(u8 *d, u8 *s, u64 n) { if (n > 0) memmove(d, s, n); return d; }
u8 *X_memset(u8 *d, u32 c, u64 n) { if (n > 0) memset(d, (int)c, n); return d; }
#ifdef HAVE_X_memcmp
u32 X_memcmp(u8 *a, u8 *b, u64 n) {
#ifdef VP_TOKENS
	if (n > 0 && vp_istok(a) && vp_istok(b)) { u64 la = vp_tl(*(u32 *)a), lb = vp_tl(*(u32 *)b); __CPROVER_assert(n <= la + 1 && n <= lb + 1, "memcmp within the strings"); return vp_tokcmp(*(u32 *)a, *(u32 *)b, n); }
#endif
	for (u64 i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? (u32)-1 : 1; return 0; }
#endif
#ifdef HAVE_X_strlen
#ifdef VP_TOKENS
u64 X_strlen(u8 *s) { return vp_tl(*(u32 *)s); }
#else
u64 X_strlen(u8 *s) { for (int i = 0; i < vp_nstr; i++) if (vp_strs[i] == s) return vp_slen[i]; u64 n = 0; while (s[n]) n++; return n; }
#endif
#endif
#ifdef HAVE_X_strcmp
u32 X_strcmp(u8 *a, u8 *b) {
#ifdef VP_TOKENS
	if (vp_istok(a) && vp_istok(b)) return vp_tokcmp(*(u32 *)a, *(u32 *)b, 65536);
#endif
	u64 i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i] ? 0 : a[i] < b[i] ? (u32)-1 : 1; }
#endif
#ifdef HAVE_X_strncmp
u32 X_strncmp(u8 *a, u8 *b, u64 n) {
#ifdef VP_TOKENS
	if (n > 0 && vp_istok(a) && vp_istok(b)) return vp_tokcmp(*(u32 *)a, *(u32 *)b, n);
#endif
	for (u64 i = 0; i < n; i++) { if (a[i] != b[i]) return a[i] < b[i] ? (u32)-1 : 1; if (!a[i]) return 0; } return 0; }
#endif
#ifdef HAVE_X_strcpy
u8 *X_strcpy(u8 *d, u8 *s) { u64 i = 0; do d[i] = s[i]; while (s[i++]); return d; }
#endif
#ifdef HAVE_X_strncpy
u8 *X_strncpy(u8 *d, u8 *s, u64 n) { u64 i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
#endif
#ifdef HAVE_X_strcat
u8 *X_strcat(u8 *d, u8 *s) { u64 i = 0, j = 0; while (d[i]) i++; do d[i + j] = s[j]; while (s[j++]); return d; }
#endif
#ifdef HAVE_X_strchr
u8 *X_strchr(u8 *s, u32 c) { for (;; s++) { if (*s == (u8)c) return s; if (!*s) return 0; } }
#endif
#ifdef HAVE_X_memchr
u8 *X_memchr(u8 *s, u32 c, u64 n) { for (u64 i = 0; i < n; i++) if (s[i] == (u8)c) return s + i; return 0; }
#endif
#ifdef HAVE_X_strdup
u8 *X_strdup(u8 *s) {
#ifdef VP_TOKENS
	if (vp_istok(s)) { u32 *q = malloc(4); __CPROVER_assume(q != 0); *q = *(u32 *)s; return (u8 *)q; }
#endif
	u64 n = 0; while (s[n]) n++; u8 *p = malloc(n + 1); __CPROVER_assume(p != 0); for (u64 i = 0; i <= n; i++) p[i] = s[i]; return p; }
#endif
#ifdef HAVE_X_printf
u32 X_printf(u8 *f, ...) { return 0; }
#endif
#ifdef HAVE_X_puts
u32 X_puts(u8 *f) { return 0; }
#endif
#ifdef HAVE_X_perror
void X_perror(u8 *f) { }
#endif
#ifdef HAVE_X_abort
void X_abort(void) { __CPROVER_assert(0, "abort"); __CPROVER_assume(0); }
#endif
#ifdef HAVE_X___cxa_pure_virtual
void X___cxa_pure_virtual(void) { __CPROVER_assert(0, "pure virtual call"); __CPROVER_assume(0); }
#endif
#ifdef HAVE_X___cxa_allocate_exception
u8 *X___cxa_allocate_exception(u64 n) { u8 *p = malloc(n); __CPROVER_assume(p != 0); return p; }
#endif
#ifdef HAVE_X___cxa_throw
#ifdef VP_EXC_ON
void X___cxa_throw(u8 *a, u8 *b, u8 *c) { vp_exc = 1; vp_exc_obj = a; vp_exc_type = b; }
#else
void X___cxa_throw(u8 *a, u8 *b, u8 *c) { __CPROVER_assume(0); }
#endif
#endif
#ifdef HAVE_X___cxa_rethrow
void X___cxa_rethrow(void) { vp_exc = 1; }
#endif
#ifdef HAVE_X___cxa_free_exception
void X___cxa_free_exception(u8 *a) { }
#endif
#ifdef HAVE_X___clang_call_terminate
void X___clang_call_terminate(u8 *a) { __CPROVER_assert(0, "terminate"); __CPROVER_assume(0); }
#endif
#ifdef HAVE_X__ZSt9terminatev
void X__ZSt9terminatev(void) { __CPROVER_assert(0, "terminate"); __CPROVER_assume(0); }
#endif
#ifdef HAVE_X_sprintf
#include <stdarg.h>
/* %[0][width]{d,u,X,x,c,s} and plain text, as in ISO C */
u32 X_sprintf(u8 *d, u8 *f, ...)
{
	va_list ap; va_start(ap, f); u32 o = 0;
	while (*f)
	{
		if (*f != '%') { d[o++] = *f++; continue; }
		f++; int zero = 0, w = 0; if (*f == '0') zero = 1, f++;
		while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
		while (*f == 'l' || *f == 'h') f++;
		if (*f == 's') { u8 *s = va_arg(ap, u8 *); while (*s) d[o++] = *s++; }
		else if (*f == 'c') d[o++] = (u8)va_arg(ap, int);
		else if (*f == '%') d[o++] = '%';
		else
		{
			u32 v = va_arg(ap, u32), b = *f == 'X' || *f == 'x' ? 16 : 10; int neg = 0, n = 1;
			if (*f == 'd' && (s32)v < 0) neg = 1, v = 0 - v;
			for (u32 x = v / b; x; x /= b) n++;
			if (!zero) for (int i = n + neg; i < w; i++) d[o++] = ' ';
			if (neg) d[o++] = '-';
			if (zero) for (int i = n + neg; i < w; i++) d[o++] = '0';
			for (int i = n - 1; i >= 0; i--) { u32 g = v % b; d[o + i] = g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10; v /= b; }
			o += n;
		}
		f++;
	}
	d[o] = 0; va_end(ap);
	return o;
}
#endif
#ifdef HAVE_X___cxa_begin_catch
u8 *X___cxa_begin_catch(u8 *a) { return a; }
#endif
#ifdef HAVE_X___cxa_end_catch
void X___cxa_end_catch(void) { }
#endif
#ifdef HAVE_X__ZSt20__throw_length_errorPKc
void X__ZSt20__throw_length_errorPKc(u8 *a) { __CPROVER_assume(0); }
#endif
#ifdef HAVE_X__ZSt19__throw_logic_errorPKc
void X__ZSt19__throw_logic_errorPKc(u8 *a) { __CPROVER_assume(0); }
#endif
#ifdef HAVE_X__ZSt17__throw_bad_allocv
void X__ZSt17__throw_bad_allocv(void) { __CPROVER_assume(0); }
#endif
#ifdef HAVE_X__ZSt28__throw_bad_array_new_lengthv
void X__ZSt28__throw_bad_array_new_lengthv(void) { __CPROVER_assume(0); }
#endif
#ifdef HAVE_X__ZSt25__throw_bad_function_callv
void X__ZSt25__throw_bad_function_callv(void) { __CPROVER_assume(0); }
#endif
#ifdef HAVE_X__ZdaPvm
void X__ZdaPvm(u8 *p, u64 n) { free(p); }
#endif
#ifdef HAVE_X__ZnwmRKSt9nothrow_t
u8 *X__ZnwmRKSt9nothrow_t(u64 n, u8 *t) { return malloc(n); }
#endif
#ifdef HAVE_X__ZnamRKSt9nothrow_t
u8 *X__ZnamRKSt9nothrow_t(u64 n, u8 *t) { return malloc(n); }
#endif
#ifdef HAVE_X_strnlen
u64 X_strnlen(u8 *s, u64 m) { u64 n = 0; while (n < m && s[n]) n++; return n; }
#endif
#ifdef HAVE_X_strncat
u8 *X_strncat(u8 *d, u8 *s, u64 m) { u64 n = 0, i = 0; while (d[n]) n++; while (i < m && s[i]) { d[n + i] = s[i]; i++; } d[n + i] = 0; return d; }
#endif
#ifdef HAVE_X_abs
u32 X_abs(u32 a) { return (s32)a < 0 ? -a : a; }
#endif
#ifdef HAVE_X_putchar
u32 X_putchar(u32 a) { return a; }
#endif
#ifdef HAVE_X_fflush
u32 X_fflush(u8 *a) { return 0; }
#endif
#ifdef HAVE_X___errno_location
u32 vp_errno; u8 *X___errno_location(void) { return (u8 *)&vp_errno; }
#endif
#ifdef HAVE_X_strerror
u8 *X_strerror(u32 e) { static u8 s[2] = "e"; return s; }
#endif
#ifdef HAVE_X__ZNSt9exceptionD2Ev
void X__ZNSt9exceptionD2Ev(u8 *a) { }
#endif
#ifdef HAVE_X_htons
u16 X_htons(u16 x) { return (u16)(x << 8 | x >> 8); }
#endif
#ifdef HAVE_X_ntohs
u16 X_ntohs(u16 x) { return (u16)(x << 8 | x >> 8); }
#endif
#ifdef HAVE_X_htonl
u32 X_htonl(u32 x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
#endif
#ifdef HAVE_X_ntohl
u32 X_ntohl(u32 x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
#endif
#ifdef HAVE_X_isspace
u32 X_isspace(u32 c) { return c == ' ' || (c >= 9 && c <= 13); }
#endif
#ifdef HAVE_X_isdigit
u32 X_isdigit(u32 c) { return c >= '0' && c <= '9'; }
#endif
#ifdef HAVE_X_strcasecmp
static u8 vp_lower(u8 c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
u32 X_strcasecmp(u8 *a, u8 *b) { u64 i = 0; while (a[i] && vp_lower(a[i]) == vp_lower(b[i])) i++; return (u32)((int)vp_lower(a[i]) - (int)vp_lower(b[i])); }
#endif
