/* Round-trip lemmas over the real serializers and deserializers.
 * Every rt_F is a lemma: for all argument values, if the serializer accepts,
 * the deserializer accepts the same bytes and gives the same values back.
 * memcpy and strlen are replaced by their contracts; everything else is the real body. */
#include <stdlib.h>
#include "contracts.h"
#ifdef VP_NATIVE            /* the same lemmas executed on random values: gives the failing input of a failed lemma */
#include "rtnative.h"
#else
int vg_k; int vg_m; char *vg_str; int vg_slen; int vg_getlen;
static int nd_int(void) { int x; return x; }
static unsigned char nd_u8(void) { unsigned char x; return x; }
static unsigned short nd_u16(void) { unsigned short x; return x; }
#define A(c) __CPROVER_assert(c, "roundtrip: " #c)
#define REACH __CPROVER_assert(0, "canary: reachable")
#define ASSUME __CPROVER_assume
static unsigned char *mem(int *len) { int n = nd_int(); ASSUME(n >= 0 && n <= MAXLEN); *len = n; return malloc(n); }
#endif
#define START vg_k = nd_int(); int blen; unsigned char *b = mem(&blen); ASSUME(b != NULL); int rc;
#define STRING(s, n) int n; MQTTSNString s; s.cstring = NULL; s.lenstring.data = (char*)mem(&n); s.lenstring.len = n; ASSUME(s.lenstring.data != NULL);
#define SAMESTR(o, s, n) A(o.cstring == NULL && o.lenstring.len == n); if (0 <= vg_k && vg_k < n) A(o.lenstring.data[vg_k] == s.lenstring.data[vg_k]);
#define GOT(call) if (rc > 0) { A((call) == 1);
#define END REACH; } }

void rt_publish(void) { START
	unsigned char dup = nd_u8(), ret = nd_u8(), d2, r2; int qos = nd_int(), q2; unsigned short id = nd_u16(), i2;
	MQTTSN_topicid t, t2; int kind = nd_int(), tn; unsigned char *pl, *pl2; int n, n2; char *tname;
	ASSUME(dup <= 1 && ret <= 1 && qos >= 0 && qos <= 3 && kind >= 0 && kind <= 2);
	t.type = kind; pl = mem(&n); tname = (char*)mem(&tn); ASSUME(pl != NULL && tname != NULL);
	unsigned short tid = nd_u16(); char c0 = nd_u8(), c1 = nd_u8();
	if (kind == 0 && qos == 3) { t.data.long_.name = tname; t.data.long_.len = tn; }
	else if (kind == 2) { t.data.short_name[0] = c0; t.data.short_name[1] = c1; }
	else t.data.id = tid;
	ASSUME(6 + n + tn <= MAXLEN - 3);
	rc = MQTTSNSerialize_publish(b, blen, dup, qos, ret, id, t, pl, n);
	GOT(MQTTSNDeserialize_publish(&d2, &q2, &r2, &i2, &t2, &pl2, &n2, b, blen))
	A(d2 == dup); A(q2 == qos); A(r2 == ret); A(i2 == id); A(t2.type == kind); A(n2 == n);
	if (0 <= vg_k && vg_k < n) A(pl2[vg_k] == pl[vg_k]);
	if (kind == 0 && qos == 3) { A(t2.data.long_.len == tn); if (0 <= vg_k && vg_k < tn) A(t2.data.long_.name[vg_k] == tname[vg_k]); }
	else if (kind == 2) { A(t2.data.short_name[0] == c0 && t2.data.short_name[1] == c1); }
	else A(t2.data.id == tid);
	END
void rt_puback(void) { START unsigned short t = nd_u16(), i = nd_u16(), t2, i2; unsigned char c = nd_u8(), c2;
	rc = MQTTSNSerialize_puback(b, blen, t, i, c);
	GOT(MQTTSNDeserialize_puback(&t2, &i2, &c2, b, blen)) A(t2 == t && i2 == i && c2 == c); END
void rt_pubrec(void) { START unsigned short i = nd_u16(), i2; unsigned char ty; rc = MQTTSNSerialize_pubrec(b, blen, i);
	GOT(MQTTSNDeserialize_ack(&ty, &i2, b, blen)) A(ty == MQTTSN_PUBREC && i2 == i); END
void rt_pubrel(void) { START unsigned short i = nd_u16(), i2; unsigned char ty; rc = MQTTSNSerialize_pubrel(b, blen, i);
	GOT(MQTTSNDeserialize_ack(&ty, &i2, b, blen)) A(ty == MQTTSN_PUBREL && i2 == i); END
void rt_pubcomp(void) { START unsigned short i = nd_u16(), i2; unsigned char ty; rc = MQTTSNSerialize_pubcomp(b, blen, i);
	GOT(MQTTSNDeserialize_ack(&ty, &i2, b, blen)) A(ty == MQTTSN_PUBCOMP && i2 == i); END
void rt_register(void) { START unsigned short t = nd_u16(), i = nd_u16(), t2, i2; STRING(s, n) MQTTSNString o;
	ASSUME(n + 5 <= MAXLEN - 3);
	rc = MQTTSNSerialize_register(b, blen, t, i, &s);
	GOT(MQTTSNDeserialize_register(&t2, &i2, &o, b, blen)) A(t2 == t && i2 == i); SAMESTR(o, s, n) END
void rt_regack(void) { START unsigned short t = nd_u16(), i = nd_u16(), t2, i2; unsigned char c = nd_u8(), c2;
	rc = MQTTSNSerialize_regack(b, blen, t, i, c);
	GOT(MQTTSNDeserialize_regack(&t2, &i2, &c2, b, blen)) A(t2 == t && i2 == i && c2 == c); END
#define FILTER MQTTSN_topicid t, t2; int kind = nd_int(), tn; char *tname = (char*)mem(&tn); unsigned short tid = nd_u16(); char c0 = nd_u8(), c1 = nd_u8(); \
	ASSUME(kind >= 0 && kind <= 2 && tname != NULL); t.type = kind; \
	if (kind == 0) { t.data.long_.name = tname; t.data.long_.len = tn; } else if (kind == 2) { t.data.short_name[0] = c0; t.data.short_name[1] = c1; } else t.data.id = tid; \
	ASSUME(tn + 4 <= MAXLEN - 3);
#define SAMEFILTER A(t2.type == kind); if (kind == 0) { A(t2.data.long_.len == tn); if (0 <= vg_k && vg_k < tn) A(t2.data.long_.name[vg_k] == tname[vg_k]); } \
	else if (kind == 2) { A(t2.data.short_name[0] == c0 && t2.data.short_name[1] == c1); } else A(t2.data.id == tid);
void rt_subscribe(void) { START FILTER unsigned char dup = nd_u8(), d2; int qos = nd_int(), q2; unsigned short i = nd_u16(), i2;
	ASSUME(dup <= 1 && qos >= 0 && qos <= 3);
	rc = MQTTSNSerialize_subscribe(b, blen, dup, qos, i, &t);
	GOT(MQTTSNDeserialize_subscribe(&d2, &q2, &i2, &t2, b, blen)) A(d2 == dup && q2 == qos && i2 == i); SAMEFILTER END
void rt_unsubscribe(void) { START FILTER unsigned short i = nd_u16(), i2;
	rc = MQTTSNSerialize_unsubscribe(b, blen, i, &t);
	GOT(MQTTSNDeserialize_unsubscribe(&i2, &t2, b, blen)) A(i2 == i); SAMEFILTER END
void rt_suback(void) { START int q = nd_int(), q2; unsigned short t = nd_u16(), i = nd_u16(), t2, i2; unsigned char c = nd_u8(), c2;
	ASSUME(q >= 0 && q <= 3);
	rc = MQTTSNSerialize_suback(b, blen, q, t, i, c);
	GOT(MQTTSNDeserialize_suback(&q2, &t2, &i2, &c2, b, blen)) A(q2 == q && t2 == t && i2 == i && c2 == c); END
void rt_unsuback(void) { START unsigned short i = nd_u16(), i2;
	rc = MQTTSNSerialize_unsuback(b, blen, i); GOT(MQTTSNDeserialize_unsuback(&i2, b, blen)) A(i2 == i); END
void rt_advertise(void) { START unsigned char g = nd_u8(), g2; unsigned short d = nd_u16(), d2;
	rc = MQTTSNSerialize_advertise(b, blen, g, d); GOT(MQTTSNDeserialize_advertise(&g2, &d2, b, blen)) A(g2 == g && d2 == d); END
void rt_searchgw(void) { START unsigned char r = nd_u8(), r2;
	rc = MQTTSNSerialize_searchgw(b, blen, r); GOT(MQTTSNDeserialize_searchgw(&r2, b, blen)) A(r2 == r); END
void rt_gwinfo(void) { START unsigned char g = nd_u8(), g2; unsigned short n2; int n; unsigned char *a = mem(&n), *a2; ASSUME(a != NULL && n <= MAXLEN - 5);
	rc = MQTTSNSerialize_gwinfo(b, blen, g, n, a); GOT(MQTTSNDeserialize_gwinfo(&g2, &n2, &a2, b, blen))
	A(g2 == g && n2 == n); if (0 <= vg_k && vg_k < n) A(a2[vg_k] == a[vg_k]); END
void rt_connect(void) { START STRING(s, n) MQTTSNPacket_connectData c, o; ASSUME(n + 5 <= MAXLEN - 3);
	c.clientID = s; c.duration = nd_u16(); c.cleansession = nd_u8(); c.willFlag = nd_u8(); ASSUME(c.cleansession <= 1 && c.willFlag <= 1);
	rc = MQTTSNSerialize_connect(b, blen, &c); GOT(MQTTSNDeserialize_connect(&o, b, blen))
	A(o.duration == c.duration && o.cleansession == c.cleansession && o.willFlag == c.willFlag); SAMESTR(o.clientID, s, n) END
void rt_connack(void) { START int c = nd_u8(), c2; rc = MQTTSNSerialize_connack(b, blen, c); GOT(MQTTSNDeserialize_connack(&c2, b, blen)) A(c2 == c); END
void rt_disconnect(void) { START int d = nd_int(), d2 = 0; ASSUME(d >= 0 && d <= 65535);
	rc = MQTTSNSerialize_disconnect(b, blen, d); GOT(MQTTSNDeserialize_disconnect(&d2, b, blen)) A(d2 == d); END
void rt_willtopicreq(void) { START rc = MQTTSNSerialize_willtopicreq(b, blen); GOT(MQTTSNDeserialize_willtopicreq(b, blen)) END
void rt_willmsgreq(void) { START rc = MQTTSNSerialize_willmsgreq(b, blen); GOT(MQTTSNDeserialize_willmsgreq(b, blen)) END
void rt_pingresp(void) { START rc = MQTTSNSerialize_pingresp(b, blen); GOT(MQTTSNDeserialize_pingresp(b, blen)) END
void rt_pingreq(void) { START STRING(s, n) MQTTSNString o; ASSUME(n + 1 <= MAXLEN - 3);
	rc = MQTTSNSerialize_pingreq(b, blen, s); GOT(MQTTSNDeserialize_pingreq(&o, b, blen)) SAMESTR(o, s, n) END
#define RTWT(f) START STRING(s, n) MQTTSNString o; int q = nd_int(), q2; unsigned char r = nd_u8(), r2; ASSUME(n + 2 <= MAXLEN - 3 && q >= 0 && q <= 3 && r <= 1); \
	rc = MQTTSNSerialize_##f(b, blen, q, r, s); GOT(MQTTSNDeserialize_##f(&q2, &r2, &o, b, blen)) A(q2 == q && r2 == r); SAMESTR(o, s, n) END
void rt_willtopic(void) { RTWT(willtopic)
void rt_willtopicupd(void) { RTWT(willtopicupd)
#define RTWM(f) START STRING(s, n) MQTTSNString o; ASSUME(n + 1 <= MAXLEN - 3); \
	rc = MQTTSNSerialize_##f(b, blen, s); GOT(MQTTSNDeserialize_##f(&o, b, blen)) SAMESTR(o, s, n) END
void rt_willmsg(void) { RTWM(willmsg)
void rt_willmsgupd(void) { RTWM(willmsgupd)
#define RTRC(f) START int c = nd_u8(), c2; rc = MQTTSNSerialize_##f(b, blen, c); GOT(MQTTSNDeserialize_##f(&c2, b, blen)) A(c2 == c); END
void rt_willtopicresp(void) { RTRC(willtopicresp)
void rt_willmsgresp(void) { RTRC(willmsgresp)
/* the framing check accepts exactly what a serializer produced */
void rt_read_nb(void) { START unsigned short i = nd_u16(); STRING(s, n) ASSUME(n + 5 <= MAXLEN - 3);
	rc = MQTTSNSerialize_register(b, blen, i, i, &s);
	if (rc > 0) { A(MQTTSNPacket_read_nb(b, rc) == MQTTSN_REGISTER); END
#ifdef VP_NATIVE
/* roundtrip search LEMMA SEED SECONDS | roundtrip run LEMMA CASE */
int main(int argc, char **argv)
{
	static const struct { const char *n; void (*f)(void); } T[] = {
		{ "rt_publish", rt_publish },
		{ "rt_puback", rt_puback },
		{ "rt_pubrec", rt_pubrec },
		{ "rt_pubrel", rt_pubrel },
		{ "rt_pubcomp", rt_pubcomp },
		{ "rt_register", rt_register },
		{ "rt_regack", rt_regack },
		{ "rt_subscribe", rt_subscribe },
		{ "rt_unsubscribe", rt_unsubscribe },
		{ "rt_suback", rt_suback },
		{ "rt_unsuback", rt_unsuback },
		{ "rt_advertise", rt_advertise },
		{ "rt_searchgw", rt_searchgw },
		{ "rt_gwinfo", rt_gwinfo },
		{ "rt_connect", rt_connect },
		{ "rt_connack", rt_connack },
		{ "rt_disconnect", rt_disconnect },
		{ "rt_willtopicreq", rt_willtopicreq },
		{ "rt_willmsgreq", rt_willmsgreq },
		{ "rt_pingresp", rt_pingresp },
		{ "rt_pingreq", rt_pingreq },
		{ "rt_willtopic", rt_willtopic },
		{ "rt_willtopicupd", rt_willtopicupd },
		{ "rt_willmsg", rt_willmsg },
		{ "rt_willmsgupd", rt_willmsgupd },
		{ "rt_willtopicresp", rt_willtopicresp },
		{ "rt_willmsgresp", rt_willmsgresp },
		{ "rt_read_nb", rt_read_nb },
	};
	if (argc < 4) { for (unsigned i = 0; i < sizeof T / sizeof *T; i++) puts(T[i].n); return 0; }
	void (*f)(void) = NULL;
	for (unsigned i = 0; i < sizeof T / sizeof *T; i++) if (!strcmp(T[i].n, argv[2])) f = T[i].f;
	if (!f) return 9;
	int one = !strcmp(argv[1], "run"); static unsigned long seed; seed = strtoul(argv[3], 0, 10); static time_t end; end = time(0) + (one ? 0 : atoi(argv[4]));
	static long n; if (!one) seed = seed * 1000003 + 17;
	do for (int i = 0; i < (one ? 1 : 64); i++) {
		vn_s = seed * 0x9E3779B97F4A7C15UL + 1; for (int j = 0; j < 4; j++) vn_r();
		vn_n = sprintf(vn_rec, "case=%lu: ", seed); 
		if (!setjmp(vn_skip)) f();
		while (vn_mems > 0) free(vn_mem[--vn_mems]);
		n++; seed++;
	} while (time(0) < end);
	printf("OK %ld cases, %ld reached the end of the lemma\n", n, vn_reached); return 0;
}
#endif
