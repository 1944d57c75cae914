/* vocabulary of the C text generated by vp/irc.py */
typedef unsigned char u1; typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64;
#define vp_dead() __CPROVER_assume(0)
#define vp_trap() do { __CPROVER_assert(0, "array index within the declared bound"); __CPROVER_assume(0); } while (0)
#define vp_asm()
void vp_copy(u8 *d, u8 *s, u64 n) { for (u64 i = 0; i < n; i++) d[i] = s[i]; }
u8 *vp_new_last;
#ifdef VP_EXC_ON
int vp_exc; u8 *vp_exc_obj, *vp_exc_type;	/* the exception on its way */
#endif
