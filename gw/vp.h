// Vocabulary of the contracts (gw/*.cc).  Under the verifier (VP_CBMC) vp_int is any value of
// the range, vp_check is an obligation; natively vp_int is a recorded or random choice.
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <exception>
#include <string>
extern "C" {
int vp_int(int lo, int hi);                       // any int in lo..hi
int vp_len(int hi);                               // any length in 0..hi
int vp_index(int n);                              // any int; natively an index of 0..n-1 (contracts quantify over it)
unsigned char* vp_new(int n);                      // n bytes of any content, in an allocation of exactly n bytes
char* vp_cstr(int n);                              // a C string of length n, any non-zero content
void vp_fill(void* p, int n);                      // give n bytes any content
void vp_assume(bool c);
void vp_check(bool c, const char* what);           // what: literal, "class: text"
void vp_reach(const char* what);                   // must be reachable: the vacuity canary
void vp_track(int off);                           // the contract reads bytes copied by memcpy only at the offsets it tracks
char* vp_name();                                   // a C string of any content (a token to the verifier)
void vp_calloc_any();                              // the proof does not use that calloc clears
bool vp_readable(const void* p, int n);            // p..p+n-1 may be read
}
static inline unsigned char vp_u8() { return (unsigned char)vp_int(0, 255); }
static inline unsigned short vp_u16() { return (unsigned short)vp_int(0, 65535); }
static inline bool vp_bool() { return vp_int(0, 1) != 0; }
#define POST(c) vp_check((c), "post: " #c)
#define INSIDE(c) vp_check((c), "bounds: " #c)
#define ASSUME(c) vp_assume(c)
#define REACH vp_reach("canary: end of the contract")
#define IMP(a, b) (!(a) || (b))
#define private public
#define protected public
#endif
