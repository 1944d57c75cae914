// Native runtime of the contracts: the same vph_* functions, compiled with the real sources and ASan,
// run on the choices of a verifier trace (replay) or on random ones (search).
// usage: prog ENTRY replay FILE | prog ENTRY search SECONDS SEED
#undef private
#undef protected
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <setjmp.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <vector>
#include <sanitizer/common_interface_defs.h>
#ifndef VP_WIT
#define VP_WIT 0
#endif
static std::vector<int> given, made; static size_t at; static bool replay;
static unsigned long long st; static jmp_buf skip; static int seed0; static long trial; static int bias;
extern "C" { void* __asan_region_is_poisoned(void*, size_t); int __asan_address_is_poisoned(const volatile void*); }
extern "C" { extern int vp_batch __attribute__((weak)); }	// contracts without state of their own: trials per process
static std::vector<void*> blocks;
static unsigned rnd() { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(st >> 33); }
static int choose(int fallback) { int v = fallback; if (replay && at < given.size()) v = given[at]; at++; made.push_back(v); return v; }
static void show(const char* why)
{
	printf("FAIL %s\n", why);
	printf("choices:"); for (size_t i = 0; i < made.size() && i < 400; i++) printf(" %d", made[i]);
	printf("\nseed %d trial %ld\n", seed0, trial); fflush(stdout);
}
static void died() { static int n; if (n++) _exit(3); show("memory error (see the sanitizer report)"); }
extern "C" {
int vp_int(int lo, int hi)
{
	int v; long r = (long)hi - lo + 1;
	if (r <= 16 || rnd() % 3) v = (int)(lo + (((unsigned long)rnd() << 31 | rnd()) % r));
	else { static const int E[] = { 0, 1, 2, 3, 127, 128, 255, 256, 65534, 65535, -1 }; v = E[rnd() % 11]; if (v < lo || v > hi) v = rnd() & 1 ? lo : hi; }
	v = choose(v); if (v < lo || v > hi) longjmp(skip, 1);
	return v;
}
int vp_len(int hi)
{
	int v; switch (rnd() % 8) { case 0: case 1: case 2: case 3: v = rnd() % 12; break; case 4: v = rnd() % 300; break;
		case 5: { static const int E[] = { 0, 1, 127, 128, 255, 256, 16383, 16384 }; v = E[rnd() % 8] + (int)(rnd() % 9) - 4; break; }
		case 6: v = hi - (int)(rnd() % 4); break; default: v = rnd() % (hi + 1u < 70000 ? hi + 1 : 70000); }
	if (v < 0) v = 0; if (v > hi) v = hi;
	v = choose(v); if (v < 0 || v > hi) longjmp(skip, 1);
	return v;
}
int vp_index(int n) { return choose(n > 0 ? (rnd() % 4 ? rnd() % n : rnd() & 1 ? 0 : n - 1) : 0); }
static unsigned char byte(int n) { switch (bias) { case 0: return rnd(); case 1: return rnd() % 4; case 2: return rnd() % 3 ? rnd() % (n + 1u) : rnd(); default: return "/+#ab0\0c"[rnd() % 8]; } }
static void fill(unsigned char* p, int n, int wit, bool nonzero)
{
	bias = rnd() % 4;
	for (int i = 0; i < n; i++) { unsigned char b = byte(n); if (nonzero && !b) b = 'a'; if (i < wit) b = choose(b); p[i] = b; }
}
unsigned char* vp_new(int n) { unsigned char* p = (unsigned char*)malloc(n); blocks.push_back(p); fill(p, n, VP_WIT, false); return p; }
char* vp_cstr(int n) { unsigned char* p = (unsigned char*)malloc(n + 1); blocks.push_back(p); fill(p, n, VP_WIT, true); p[n] = 0; return (char*)p; }
void vp_fill(void* p, int n) { fill((unsigned char*)p, n, n, false); }
void vp_assume(bool c) { if (!c) longjmp(skip, 1); }
void vp_check(bool c, const char* what) { if (!c) { show(what); _exit(3); } }
void vp_reach(const char*) { }
void vp_track(int) { }
void vp_calloc_any() { }
char* vp_name() { char* p = (char*)malloc(16); blocks.push_back(p); sprintf(p, "t%d", choose(
#ifdef VP_WIDE
	rnd() % 2 ? rnd() % 100 :
#endif
	rnd() % 8 ? rnd() % 6 : 10 + rnd() % 3)); return p; }
bool vp_readable(const void* p, int n) { return n <= 0 || (p && __asan_region_is_poisoned((void*)p, n) == 0); }
}

int main(int c, char** v)
{
	void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, v[1]); if (!f) { printf("no %s\n", v[1]); return 9; }
	__sanitizer_set_death_callback(died);
	if (!strcmp(v[2], "replay")) { FILE* h = fopen(v[3], "r"); int x; while (h && fscanf(h, "%d", &x) == 1) given.push_back(x); replay = true; }
	double secs = replay ? 4 : atof(v[3]); seed0 = replay ? 1 : atoi(v[4]);
	struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
	long bad = 0; for (trial = 0;; trial++)
	{
		clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9 > secs) break;
		if (replay && trial > 2000) break;
		long n = replay ? 1 : &vp_batch ? vp_batch : 1;
		st = seed0 * 0x9E3779B97F4A7C15ULL + trial * 0xD1B54A32D192ED03ULL; rnd(); rnd(); made.clear(); at = 0;
		fflush(stdout); pid_t k = fork(); int w = 0;	// each trial begins with the program's initial state
		if (k == 0)
		{
			for (volatile long i = 0; i < n; i++) { if (i) { st += 0x9E3779B97F4A7C15ULL * i; rnd(); made.clear(); at = 0; } if (!setjmp(skip)) f(); for (void* q : blocks) if (!__asan_address_is_poisoned(q)) free(q); blocks.clear(); }
			_exit(0);
		}
		waitpid(k, &w, 0); if (WIFEXITED(w) && WEXITSTATUS(w) == 0) continue;
		if (replay || (WIFEXITED(w) && WEXITSTATUS(w) == 3)) return 3;
		bad++;
	}
	printf("passed %ld trials, %ld ended otherwise\n", trial, bad);
	return 0;
}
