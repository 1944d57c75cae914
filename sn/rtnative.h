/* native reading of the lemma vocabulary */
#include <stdio.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
static jmp_buf vn_skip; static unsigned long vn_s; static char vn_rec[1 << 16]; static int vn_n; static void *vn_mem[64]; static int vn_mems;
int vg_k; static long vn_reached;
static unsigned long vn_r(void) { vn_s ^= vn_s << 13; vn_s ^= vn_s >> 7; vn_s ^= vn_s << 17; return vn_s * 0x2545F4914F6CDD1DUL >> 20; }
static void vn_note(const char *k, long v) { if (vn_n < 60000) vn_n += sprintf(vn_rec + vn_n, "%s=%ld ", k, v); }
static int nd_int(void) { int x; switch (vn_r() % 8) { case 0: x = vn_r() % 300; break; case 1: x = vn_r() % 65536; break; default: x = vn_r() % 4; } vn_note("int", x); return x; }
static unsigned char nd_u8(void) { unsigned char x = vn_r() % 3 ? vn_r() & 1 : vn_r(); vn_note("byte", x); return x; }
static unsigned short nd_u16(void) { unsigned short x = vn_r() % 4 ? vn_r() : vn_r() % 3; vn_note("short", x); return x; }
static unsigned char *mem(int *len)
{
	int n; switch (vn_r() % 8) { case 0: n = 0; break; case 1: case 2: n = vn_r() % 24; break; case 3: case 4: n = 236 + vn_r() % 36; break; case 5: n = vn_r() % 600; break; case 6: n = 65400 + vn_r() % 136; break; default: n = vn_r() % 3000; }
	unsigned char *p = malloc(n + 1); for (int i = 0; i < n; i++) p[i] = vn_r() | 1; p[n] = 0; vn_note("len", n); if (vn_mems < 64) vn_mem[vn_mems++] = p; *len = n; vg_k = n ? vn_r() % 3 ? vn_r() % n : n - 1 : 0; return p;
}
#define ASSUME(c) do { if (!(c)) longjmp(vn_skip, 1); } while (0)
#define A(c) do { if (!(c)) { printf("FAIL exact %s\nvalues in order of choice: %s\n", #c, vn_rec); fflush(stdout); _Exit(3); } } while (0)
#define REACH vn_reached++
