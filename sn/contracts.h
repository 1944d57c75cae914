/* Contracts for the MQTT-SN packet library (MQTTSNPacket/src, every .c file).
 *
 * The header is put in front of each real source file with "goto-cc -include";
 * the sources themselves are compiled unmodified.  "goto-instrument --dfcc
 * --enforce-contract F" then checks the body of F against its contract.
 *
 *   E(...)  a content clause   (checked by the layout / exactness properties)
 *   B(...)  a bounds clause    (checked by the memory properties)
 *
 * vg_k is a ghost index: it is an unconstrained global, so a clause about byte
 * vg_k is a clause about every byte.
 */
#ifndef VP_SN_CONTRACTS
#define VP_SN_CONTRACTS
#include <stddef.h>
#include "MQTTSNPacket.h"

extern int vg_k;            /* ghost index, arbitrary */
extern char *vg_str;        /* ghost: the C string of this call, if any */
extern int vg_m;             /* ghost: the number of bytes after the length field */
extern int vg_slen;         /* ghost: its length */

#define RV __CPROVER_return_value
#define REQ(...) __CPROVER_requires(__VA_ARGS__)
#define ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define FRESH(p, n) __CPROVER_is_fresh(p, n)
#ifdef VP_CONTENT
#define E(...) __CPROVER_ensures(__VA_ARGS__)
#else
#define E(...)
#endif
#ifdef VP_BOUNDS
#define B(...) __CPROVER_ensures(__VA_ARGS__)
#else
#define B(...)
#endif

/* vacuity canary: must FAIL, i.e. a successful return must be reachable under the preconditions */
#ifdef VP_CANARY
#define CAN __CPROVER_ensures(RV <= 0)
#else
#define CAN
#endif

#define MAXLEN 65535        /* largest total an MQTT-SN length field can carry */
#define IMP(a, b) (!(a) || (b))
#define U8(p, i) (((const unsigned char*)(p))[i])
#define U16(p, i) (256 * U8(p, i) + U8(p, (i) + 1))

#ifndef VP_NATIVE
/* ---------------------------------------------------------------- libc --- */
void *memcpy(void *dst, const void *src, size_t n)
REQ(n <= 0x7fffffff)
REQ(n == 0 || (__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n)))
ASG(n > 0 : __CPROVER_object_upto(dst, n))
__CPROVER_ensures(RV == dst)
__CPROVER_ensures(!(0 <= vg_k && vg_k < n) || ((unsigned char*)dst)[vg_k] == ((unsigned char*)src)[vg_k])
;
size_t strlen(const char *s)
REQ(s == vg_str)
__CPROVER_assigns()
__CPROVER_ensures(RV == vg_slen)
;

#endif
/* ------------------------------------------------- the length field (spec) */
/* header length of what is in buf, 0 if there is none within n bytes */
#define HL(buf, n) ((n) < 1 ? 0 : U8(buf, 0) != 1 ? 1 : (n) < 3 ? 0 : 3)
/* value of the length field; only where HL() > 0 */
#define LV(buf, n) (U8(buf, 0) != 1 ? U8(buf, 0) : U16(buf, 1))
/* the packet in buf[0..n) has a complete header, fits, and has at least m bytes after the length field */
#define FITS(buf, n, m) (HL(buf, n) > 0 && LV(buf, n) <= (n) && LV(buf, n) - HL(buf, n) >= (m))
#define TYPE(buf, n) U8(buf, HL(buf, n))
#define IS(buf, n, t, m) (FITS(buf, n, m) && TYPE(buf, n) == (t))
/* byte / integer i of the body (0 is the byte after the message type) */
#define BY(buf, n, i) U8(buf, HL(buf, n) + 1 + (i))
#define BI(buf, n, i) U16(buf, HL(buf, n) + 1 + (i))
#define REST(buf, n, i) (LV(buf, n) - HL(buf, n) - 1 - (i))
#define AT(buf, n, i) ((buf) + HL(buf, n) + 1 + (i))

/* total length of a packet whose length field is followed by m bytes */
#define TOT(m) ((m) >= 255 ? (m) + 3 : (m) + 1)
/* offset of the byte after the length field */
#define OF(m) ((m) >= 255 ? 3 : 1)
#define HDR(buf, m, t) ((TOT(m) > 255 ? (U8(buf, 0) == 1 && U16(buf, 1) == TOT(m)) : U8(buf, 0) == TOT(m)) && U8(buf, OF(m)) == (t))
/* byte / integer i of the serialized body */
#define SB(buf, m, i) U8(buf, OF(m) + 1 + (i))
#define SI(buf, m, i) U16(buf, OF(m) + 1 + (i))
#define COPIED(buf, m, i, src, l) IMP(0 <= vg_k && vg_k < (l), U8(buf, OF(m) + 1 + (i) + vg_k) == U8(src, vg_k))

/* witness: the first bytes of the packet as scalars, so that a counterexample shows them */
#ifdef VP_WITNESS
extern unsigned char vg_w[48];
#define W1(i) IMP(buflen > (i), vg_w[i] == U8(buf, i))
#define W8(i) REQ(W1(i) && W1(i + 1) && W1(i + 2) && W1(i + 3) && W1(i + 4) && W1(i + 5) && W1(i + 6) && W1(i + 7))
#define WIT W8(0) W8(8) W8(16) W8(24) W8(32) W8(40)
#else
#define WIT
#endif
#define BUF REQ(buflen >= 0) REQ(FRESH(buf, buflen)) WIT
#define LBUF REQ(len >= 0) REQ(FRESH(buf, len))
/* a serializer: m bytes follow the length field; refuses exactly when the packet does not fit, writes only the packet */
#define SER(m) REQ((m) <= MAXLEN - 3) REQ(vg_m == (m)) \
	ASG(vg_m >= 255 && vg_m + 3 <= buflen : __CPROVER_object_upto(buf, vg_m + 3); vg_m < 255 && vg_m + 1 <= buflen : __CPROVER_object_upto(buf, vg_m + 1)) \
	B(IMP(TOT(m) > buflen, RV == MQTTSNPACKET_BUFFER_TOO_SHORT)) B(IMP(TOT(m) <= buflen, RV == TOT(m)))
#define OKS(...) E(IMP(RV > 0, __VA_ARGS__))
#define DES(t, m) E((RV == 1) == (IS(buf, buflen, t, m)))
#define OK1(...) E(IMP(RV == 1, __VA_ARGS__))
#define OKB(...) B(IMP(RV == 1, __VA_ARGS__))

/* an MQTTSNString argument: a C string, or a length and bytes */
#define STRARG(s) \
	REQ(vg_slen >= 0 && vg_slen <= MAXLEN) \
	REQ((s).cstring == NULL ? (s).lenstring.len >= 0 && (s).lenstring.len <= MAXLEN && FRESH((s).lenstring.data, (s).lenstring.len) \
	     : FRESH((s).cstring, vg_slen + 1) && vg_str == (s).cstring)
#define SLEN(s) ((s).cstring ? vg_slen : (s).lenstring.len)
#define SPTR(s) ((s).cstring ? (s).cstring : (s).lenstring.data)
/* an MQTTSNString result taken from position i of the body */
#define STRRES(s, buf, n, i) ((s).cstring == NULL && (s).lenstring.len == REST(buf, n, i) && \
	IMP((s).lenstring.len > 0, (s).lenstring.data == (char*)AT(buf, n, i)))
/* the string lies inside buf[0..n) */
#define WITHIN(p, l, buf, n) ((l) >= 0 && IMP((l) > 0, __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(buf) && \
	__CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(buf) && \
	__CPROVER_POINTER_OFFSET(p) + (l) <= __CPROVER_POINTER_OFFSET(buf) + (n)))

#ifndef VP_NATIVE
/* ------------------------------------------------------- MQTTSNPacket.c --- */
int MQTTSNPacket_len(int length)
REQ(length >= 0 && length <= MAXLEN - 3)
ASG()
E(RV == TOT(length))
CAN
;
int MQTTSNPacket_encode(unsigned char* buf, int length)
REQ(length >= 0 && length <= MAXLEN)
REQ(FRESH(buf, length > 255 ? 3 : 1))
ASG(length > 255 : __CPROVER_object_upto(buf, 3); length <= 255 : __CPROVER_object_upto(buf, 1))
B(RV == (length > 255 ? 3 : 1))
E(RV == (length > 255 ? 3 : 1))
E(length > 255 ? U8(buf, 0) == 1 && U16(buf, 1) == length : U8(buf, 0) == length)
CAN
;
int MQTTSNPacket_decode(unsigned char* buf, int buflen, int* value)
BUF REQ(FRESH(value, sizeof(int)))
ASG(*value)
B(RV == (HL(buf, buflen) > 0 ? HL(buf, buflen) : -1))
E(RV == (HL(buf, buflen) > 0 ? HL(buf, buflen) : -1))
E(IMP(RV > 0, *value == LV(buf, buflen)))
CAN
;
int MQTTSNPacket_read_nb(unsigned char* buf, int buflen)
BUF
ASG()
E(RV == (HL(buf, buflen) > 0 && LV(buf, buflen) == buflen && HL(buf, buflen) < buflen ? TYPE(buf, buflen) : MQTTSNPACKET_READ_ERROR))
CAN
;
/* the transport's read function: at most the requested number of bytes, all inside the buffer */
extern int vg_getlen;
int vp_getfn(unsigned char* b, int n)
REQ(n >= 0 && (n == 0 || __CPROVER_w_ok(b, n)))
ASG(n > 0 : __CPROVER_object_upto(b, n); vg_getlen)
__CPROVER_ensures(RV <= n)
__CPROVER_ensures(vg_getlen == RV)
;
int MQTTSNPacket_read(unsigned char* buf, int buflen, int (*getfn)(unsigned char*, int))
BUF
REQ(getfn == vp_getfn)
ASG(buflen > 0 : __CPROVER_object_upto(buf, buflen); vg_getlen)
E(IMP(vg_getlen < 2, RV == MQTTSNPACKET_READ_ERROR))
E(IMP(vg_getlen >= 2, RV == (HL(buf, vg_getlen) > 0 && LV(buf, vg_getlen) == vg_getlen && HL(buf, vg_getlen) < vg_getlen ? TYPE(buf, vg_getlen) : MQTTSNPACKET_READ_ERROR)))
CAN
;

/* --------------------------------------------- PUBLISH and acknowledgements */
#define LONGT(type, qos) ((type) == MQTTSN_TOPIC_TYPE_NORMAL && (qos) == 3)
#define FL(buf, n) BY(buf, n, 0)
int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retained, unsigned short* packetid, MQTTSN_topicid* topic,
		unsigned char** payload, int* payloadlen, unsigned char* buf, int buflen)
BUF
REQ(FRESH(dup, 1) && FRESH(qos, sizeof(int)) && FRESH(retained, 1) && FRESH(packetid, 2) && FRESH(topic, sizeof(MQTTSN_topicid)))
REQ(FRESH(payload, sizeof(unsigned char*)) && FRESH(payloadlen, sizeof(int)))
ASG(*dup, *qos, *retained, *packetid, *topic, *payload, *payloadlen)
#define PLONG(buf, n) ((FL(buf, n) & 0x63) == 0x60)   /* QoS -1 with a topic name */
E((RV == 1) == (IS(buf, buflen, MQTTSN_PUBLISH, 6) && IMP(PLONG(buf, buflen), BI(buf, buflen, 1) <= REST(buf, buflen, 5))))
OK1(*dup == (FL(buf, buflen) >> 7))
OK1(*qos == ((FL(buf, buflen) >> 5) & 3))
OK1(*retained == ((FL(buf, buflen) >> 4) & 1))
OK1(*packetid == BI(buf, buflen, 3))
OK1(topic->type == (FL(buf, buflen) & 3))
OK1(IMP(PLONG(buf, buflen), topic->data.long_.len == BI(buf, buflen, 1) && topic->data.long_.name == (char*)AT(buf, buflen, 5)))
OK1(IMP(!PLONG(buf, buflen) && topic->type <= MQTTSN_TOPIC_TYPE_PREDEFINED, topic->data.id == BI(buf, buflen, 1)))
OK1(IMP(topic->type == MQTTSN_TOPIC_TYPE_SHORT, U8(topic->data.short_name, 0) == BY(buf, buflen, 1) && U8(topic->data.short_name, 1) == BY(buf, buflen, 2)))
OK1(*payloadlen == REST(buf, buflen, PLONG(buf, buflen) ? 5 + BI(buf, buflen, 1) : 5))
OK1(*payload == AT(buf, buflen, PLONG(buf, buflen) ? 5 + BI(buf, buflen, 1) : 5))
OKB(WITHIN(*payload, *payloadlen, buf, buflen))
OKB(IMP(PLONG(buf, buflen), WITHIN(topic->data.long_.name, topic->data.long_.len, buf, buflen)))
CAN
;
int MQTTSNDeserialize_puback(unsigned short* topicid, unsigned short* packetid, unsigned char* returncode, unsigned char* buf, int buflen)
BUF REQ(FRESH(topicid, 2) && FRESH(packetid, 2) && FRESH(returncode, 1))
ASG(*topicid, *packetid, *returncode)
DES(MQTTSN_PUBACK, 6)
OK1(*topicid == BI(buf, buflen, 0) && *packetid == BI(buf, buflen, 2) && *returncode == BY(buf, buflen, 4))
CAN
;
int MQTTSNDeserialize_ack(unsigned char* type, unsigned short* packetid, unsigned char* buf, int buflen)
BUF REQ(FRESH(type, 1) && FRESH(packetid, 2))
ASG(*type, *packetid)
E((RV == 1) == (FITS(buf, buflen, 3) && (TYPE(buf, buflen) == MQTTSN_PUBREL || TYPE(buf, buflen) == MQTTSN_PUBREC || TYPE(buf, buflen) == MQTTSN_PUBCOMP)))
OK1(*type == TYPE(buf, buflen) && *packetid == BI(buf, buflen, 0))
CAN
;
int MQTTSNDeserialize_register(unsigned short* topicid, unsigned short* packetid, MQTTSNString* topicname, unsigned char* buf, int buflen)
BUF REQ(FRESH(topicid, 2) && FRESH(packetid, 2) && FRESH(topicname, sizeof(MQTTSNString)))
ASG(*topicid, *packetid, *topicname)
DES(MQTTSN_REGISTER, 5)
OK1(*topicid == BI(buf, buflen, 0) && *packetid == BI(buf, buflen, 2) && STRRES(*topicname, buf, buflen, 4))
OKB(topicname->cstring == NULL && WITHIN(topicname->lenstring.data, topicname->lenstring.len, buf, buflen))
CAN
;
int MQTTSNDeserialize_regack(unsigned short* topicid, unsigned short* packetid, unsigned char* return_code, unsigned char* buf, int buflen)
BUF REQ(FRESH(topicid, 2) && FRESH(packetid, 2) && FRESH(return_code, 1))
ASG(*topicid, *packetid, *return_code)
DES(MQTTSN_REGACK, 6)
OK1(*topicid == BI(buf, buflen, 0) && *packetid == BI(buf, buflen, 2) && *return_code == BY(buf, buflen, 4))
CAN
;

#define PLEN(topic, qos, payloadlen) (6 + (LONGT((topic).type, qos) ? (topic).data.long_.len : 0) + (payloadlen))
#define PUBARGS REQ(qos >= 0 && qos <= 3 && (unsigned)topic.type <= MQTTSN_TOPIC_TYPE_SHORT && payloadlen >= 0 && payloadlen <= MAXLEN) \
	REQ(IMP(LONGT(topic.type, qos), topic.data.long_.len >= 0 && topic.data.long_.len <= MAXLEN))
int MQTTSNSerialize_publishLength(int payloadlen, MQTTSN_topicid topic, int qos)
PUBARGS
ASG()
E(RV == PLEN(topic, qos, payloadlen))
CAN
;
int MQTTSNSerialize_publish(unsigned char* buf, int buflen, unsigned char dup, int qos, unsigned char retained, unsigned short packetid,
		MQTTSN_topicid topic, unsigned char* payload, int payloadlen)
BUF PUBARGS
REQ(dup <= 1 && retained <= 1)
REQ(FRESH(payload, payloadlen))
REQ(IMP(LONGT(topic.type, qos), FRESH(topic.data.long_.name, topic.data.long_.len)))
SER(PLEN(topic, qos, payloadlen))
OKS(HDR(buf, PLEN(topic, qos, payloadlen), MQTTSN_PUBLISH))
OKS(SB(buf, PLEN(topic, qos, payloadlen), 0) == (dup << 7 | qos << 5 | retained << 4 | topic.type))
OKS(SI(buf, PLEN(topic, qos, payloadlen), 3) == packetid)
OKS(IMP(LONGT(topic.type, qos), SI(buf, PLEN(topic, qos, payloadlen), 1) == topic.data.long_.len && COPIED(buf, PLEN(topic, qos, payloadlen), 5, topic.data.long_.name, topic.data.long_.len)))
OKS(IMP(!LONGT(topic.type, qos) && topic.type <= MQTTSN_TOPIC_TYPE_PREDEFINED, SI(buf, PLEN(topic, qos, payloadlen), 1) == topic.data.id))
OKS(IMP(topic.type == MQTTSN_TOPIC_TYPE_SHORT, SB(buf, PLEN(topic, qos, payloadlen), 1) == (unsigned char)topic.data.short_name[0] && SB(buf, PLEN(topic, qos, payloadlen), 2) == (unsigned char)topic.data.short_name[1]))
OKS(COPIED(buf, PLEN(topic, qos, payloadlen), (LONGT(topic.type, qos) ? 5 + topic.data.long_.len : 5), payload, payloadlen))
CAN
;
int MQTTSNSerialize_puback(unsigned char* buf, int buflen, unsigned short topicid, unsigned short packetid, unsigned char returncode)
BUF SER(6)
OKS(HDR(buf, 6, MQTTSN_PUBACK) && SI(buf, 6, 0) == topicid && SI(buf, 6, 2) == packetid && SB(buf, 6, 4) == returncode)
CAN
;
#define ACKS(t) BUF SER(3) OKS(HDR(buf, 3, t) && SI(buf, 3, 0) == packetid)
int MQTTSNSerialize_pubrec(unsigned char* buf, int buflen, unsigned short packetid)
ACKS(MQTTSN_PUBREC)
CAN
;
int MQTTSNSerialize_pubrel(unsigned char* buf, int buflen, unsigned short packetid)
ACKS(MQTTSN_PUBREL)
CAN
;
int MQTTSNSerialize_pubcomp(unsigned char* buf, int buflen, unsigned short packetid)
ACKS(MQTTSN_PUBCOMP)
CAN
;
#define RLEN(topicname) (5 + SLEN(*(topicname)))
int MQTTSNSerialize_registerLength(int topicnamelen)
REQ(topicnamelen >= 0 && topicnamelen <= MAXLEN)
ASG()
E(RV == topicnamelen + 5)
CAN
;
int MQTTSNSerialize_register(unsigned char* buf, int buflen, unsigned short topicid, unsigned short packetid, MQTTSNString* topicname)
BUF REQ(FRESH(topicname, sizeof(MQTTSNString))) STRARG(*topicname)
SER(RLEN(topicname))
OKS(HDR(buf, RLEN(topicname), MQTTSN_REGISTER))
OKS(SI(buf, RLEN(topicname), 0) == topicid && SI(buf, RLEN(topicname), 2) == packetid)
OKS(COPIED(buf, RLEN(topicname), 4, SPTR(*topicname), SLEN(*topicname)))
CAN
;
int MQTTSNSerialize_regack(unsigned char* buf, int buflen, unsigned short topicid, unsigned short packetid, unsigned char return_code)
BUF SER(6)
OKS(HDR(buf, 6, MQTTSN_REGACK) && SI(buf, 6, 0) == topicid && SI(buf, 6, 2) == packetid && SB(buf, 6, 4) == return_code)
CAN
;

/* ------------------------------------------------- SUBSCRIBE / UNSUBSCRIBE */
#define FLEN(t) (4 + ((t)->type == MQTTSN_TOPIC_TYPE_NORMAL ? (t)->data.long_.len : 2))
#define FILTERARG REQ(FRESH(topicFilter, sizeof(MQTTSN_topicid)) && (unsigned)topicFilter->type <= MQTTSN_TOPIC_TYPE_SHORT) \
	REQ(IMP(topicFilter->type == MQTTSN_TOPIC_TYPE_NORMAL, topicFilter->data.long_.len >= 0 && topicFilter->data.long_.len <= MAXLEN && FRESH(topicFilter->data.long_.name, topicFilter->data.long_.len)))
#define FILTERRES(buf, n) \
	OK1(topicFilter->type == (FL(buf, n) & 3)) \
	OK1(IMP(topicFilter->type == MQTTSN_TOPIC_TYPE_NORMAL, topicFilter->data.long_.len == REST(buf, n, 3) && topicFilter->data.long_.name == (char*)AT(buf, n, 3))) \
	OK1(IMP(topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED, topicFilter->data.id == BI(buf, n, 3))) \
	OK1(IMP(topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT, U8(topicFilter->data.short_name, 0) == BY(buf, n, 3) && U8(topicFilter->data.short_name, 1) == BY(buf, n, 4))) \
	OKB(IMP(topicFilter->type == MQTTSN_TOPIC_TYPE_NORMAL, WITHIN(topicFilter->data.long_.name, topicFilter->data.long_.len, buf, n)))
#define FILTEROUT \
	OKS(IMP(topicFilter->type == MQTTSN_TOPIC_TYPE_NORMAL, COPIED(buf, FLEN(topicFilter), 3, topicFilter->data.long_.name, topicFilter->data.long_.len))) \
	OKS(IMP(topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED, SI(buf, FLEN(topicFilter), 3) == topicFilter->data.id)) \
	OKS(IMP(topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT, SB(buf, FLEN(topicFilter), 3) == U8(topicFilter->data.short_name, 0) && SB(buf, FLEN(topicFilter), 4) == U8(topicFilter->data.short_name, 1)))
int MQTTSNSerialize_subscribeLength(MQTTSN_topicid* topicFilter)
FILTERARG ASG() E(RV == FLEN(topicFilter))
CAN
;
int MQTTSNSerialize_subscribe(unsigned char* buf, int buflen, unsigned char dup, int qos, unsigned short packetid, MQTTSN_topicid* topicFilter)
BUF FILTERARG REQ(dup <= 1 && qos >= 0 && qos <= 3)
SER(FLEN(topicFilter))
OKS(HDR(buf, FLEN(topicFilter), MQTTSN_SUBSCRIBE))
OKS(SB(buf, FLEN(topicFilter), 0) == (dup << 7 | qos << 5 | topicFilter->type))
OKS(SI(buf, FLEN(topicFilter), 1) == packetid)
FILTEROUT
CAN
;
int MQTTSNSerialize_unsubscribeLength(MQTTSN_topicid* topicFilter)
FILTERARG ASG() E(RV == FLEN(topicFilter))
CAN
;
int MQTTSNSerialize_unsubscribe(unsigned char* buf, int buflen, unsigned short packetid, MQTTSN_topicid* topicFilter)
BUF FILTERARG
SER(FLEN(topicFilter))
OKS(HDR(buf, FLEN(topicFilter), MQTTSN_UNSUBSCRIBE))
OKS(SB(buf, FLEN(topicFilter), 0) == topicFilter->type)
OKS(SI(buf, FLEN(topicFilter), 1) == packetid)
FILTEROUT
CAN
;
#define FOK(buf, n, t) (IS(buf, n, t, 4) && (FL(buf, n) & 3) != 3 && IMP((FL(buf, n) & 3) != 0, REST(buf, n, 3) >= 2))
int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* packetid, MQTTSN_topicid* topicFilter, unsigned char* buf, int buflen)
BUF REQ(FRESH(dup, 1) && FRESH(qos, sizeof(int)) && FRESH(packetid, 2) && FRESH(topicFilter, sizeof(MQTTSN_topicid)))
ASG(*dup, *qos, *packetid, *topicFilter)
E((RV == 1) == (FOK(buf, buflen, MQTTSN_SUBSCRIBE)))
OK1(*dup == (FL(buf, buflen) >> 7) && *qos == ((FL(buf, buflen) >> 5) & 3) && *packetid == BI(buf, buflen, 1))
FILTERRES(buf, buflen)
CAN
;
int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topicFilter, unsigned char* buf, int buflen)
BUF REQ(FRESH(packetid, 2) && FRESH(topicFilter, sizeof(MQTTSN_topicid)))
ASG(*packetid, *topicFilter)
E((RV == 1) == (FOK(buf, buflen, MQTTSN_UNSUBSCRIBE)))
OK1(*packetid == BI(buf, buflen, 1))
FILTERRES(buf, buflen)
CAN
;
int MQTTSNSerialize_suback(unsigned char* buf, int buflen, int qos, unsigned short topicid, unsigned short packetid, unsigned char returncode)
BUF REQ(qos >= 0 && qos <= 3) SER(7)
OKS(HDR(buf, 7, MQTTSN_SUBACK) && SB(buf, 7, 0) == qos << 5 && SI(buf, 7, 1) == topicid && SI(buf, 7, 3) == packetid && SB(buf, 7, 5) == returncode)
CAN
;
int MQTTSNDeserialize_suback(int* qos, unsigned short* topicid, unsigned short* packetid, unsigned char* returncode, unsigned char* buf, int buflen)
BUF REQ(FRESH(qos, sizeof(int)) && FRESH(topicid, 2) && FRESH(packetid, 2) && FRESH(returncode, 1))
ASG(*qos, *topicid, *packetid, *returncode)
DES(MQTTSN_SUBACK, 7)
OK1(*qos == ((FL(buf, buflen) >> 5) & 3) && *topicid == BI(buf, buflen, 1) && *packetid == BI(buf, buflen, 3) && *returncode == BY(buf, buflen, 5))
CAN
;
int MQTTSNSerialize_unsuback(unsigned char* buf, int buflen, unsigned short packetid)
ACKS(MQTTSN_UNSUBACK)
CAN
;
int MQTTSNDeserialize_unsuback(unsigned short* packetid, unsigned char* buf, int buflen)
BUF REQ(FRESH(packetid, 2))
ASG(*packetid)
DES(MQTTSN_UNSUBACK, 3)
OK1(*packetid == BI(buf, buflen, 0))
CAN
;

/* ------------------------------------------------------------- discovery --- */
int MQTTSNSerialize_advertise(unsigned char* buf, int buflen, unsigned char gatewayid, unsigned short duration)
BUF SER(4)
OKS(HDR(buf, 4, MQTTSN_ADVERTISE) && SB(buf, 4, 0) == gatewayid && SI(buf, 4, 1) == duration)
CAN
;
int MQTTSNDeserialize_advertise(unsigned char* gatewayid, unsigned short* duration, unsigned char* buf, int buflen)
BUF REQ(FRESH(gatewayid, 1) && FRESH(duration, 2))
ASG(*gatewayid, *duration)
DES(MQTTSN_ADVERTISE, 4)
OK1(*gatewayid == BY(buf, buflen, 0) && *duration == BI(buf, buflen, 1))
CAN
;
int MQTTSNSerialize_searchgw(unsigned char* buf, int buflen, unsigned char radius)
BUF SER(2)
OKS(HDR(buf, 2, MQTTSN_SEARCHGW) && SB(buf, 2, 0) == radius)
CAN
;
int MQTTSNDeserialize_searchgw(unsigned char* radius, unsigned char* buf, int buflen)
BUF REQ(FRESH(radius, 1))
ASG(*radius)
DES(MQTTSN_SEARCHGW, 2)
OK1(*radius == BY(buf, buflen, 0))
CAN
;
#define GLEN (2 + (gatewayaddress ? gatewayaddress_len : 0))
int MQTTSNSerialize_gwinfo(unsigned char* buf, int buflen, unsigned char gatewayid, unsigned short gatewayaddress_len, unsigned char* gatewayaddress)
BUF REQ(gatewayaddress == NULL || FRESH(gatewayaddress, gatewayaddress_len))
SER(GLEN)
OKS(HDR(buf, GLEN, MQTTSN_GWINFO) && SB(buf, GLEN, 0) == gatewayid)
OKS(IMP(gatewayaddress != NULL, COPIED(buf, GLEN, 1, gatewayaddress, gatewayaddress_len)))
CAN
;
int MQTTSNDeserialize_gwinfo(unsigned char* gatewayid, unsigned short* gatewayaddress_len, unsigned char** gatewayaddress, unsigned char* buf, int buflen)
BUF REQ(FRESH(gatewayid, 1) && FRESH(gatewayaddress_len, 2) && FRESH(gatewayaddress, sizeof(unsigned char*)))
ASG(*gatewayid, *gatewayaddress_len, *gatewayaddress)
DES(MQTTSN_GWINFO, 2)
OK1(*gatewayid == BY(buf, buflen, 0) && *gatewayaddress_len == REST(buf, buflen, 1))
OK1(*gatewayaddress == (*gatewayaddress_len > 0 ? AT(buf, buflen, 1) : NULL))
OKB(WITHIN(*gatewayaddress, *gatewayaddress_len, buf, buflen))
CAN
;

/* ------------------------------------------------------------ connection --- */
int MQTTSNSerialize_connectLength(MQTTSNPacket_connectData* options)
REQ(FRESH(options, sizeof(MQTTSNPacket_connectData))) STRARG(options->clientID)
ASG()
E(RV == 5 + SLEN(options->clientID))
CAN
;
#define CLEN (5 + SLEN(options->clientID))
int MQTTSNSerialize_connect(unsigned char* buf, int buflen, MQTTSNPacket_connectData* options)
BUF REQ(FRESH(options, sizeof(MQTTSNPacket_connectData))) STRARG(options->clientID)
REQ(options->cleansession <= 1 && options->willFlag <= 1)
SER(CLEN)
OKS(HDR(buf, CLEN, MQTTSN_CONNECT))
OKS(SB(buf, CLEN, 0) == (options->willFlag << 3 | options->cleansession << 2))
OKS(SB(buf, CLEN, 1) == 1 && SI(buf, CLEN, 2) == options->duration)
OKS(COPIED(buf, CLEN, 4, SPTR(options->clientID), SLEN(options->clientID)))
CAN
;
int MQTTSNDeserialize_connect(MQTTSNPacket_connectData* data, unsigned char* buf, int len)
LBUF REQ(FRESH(data, sizeof(MQTTSNPacket_connectData)))
ASG(*data)
E((RV == 1) == (IS(buf, len, MQTTSN_CONNECT, 5) && BY(buf, len, 1) == 1))
OK1(data->cleansession == ((FL(buf, len) >> 2) & 1) && data->willFlag == ((FL(buf, len) >> 3) & 1))
OK1(data->duration == BI(buf, len, 2) && STRRES(data->clientID, buf, len, 4))
OKB(data->clientID.cstring == NULL && WITHIN(data->clientID.lenstring.data, data->clientID.lenstring.len, buf, len))
CAN
;
int MQTTSNSerialize_connack(unsigned char* buf, int buflen, int connack_rc)
BUF REQ(connack_rc >= 0 && connack_rc <= 255) SER(2)
OKS(HDR(buf, 2, MQTTSN_CONNACK) && SB(buf, 2, 0) == connack_rc)
CAN
;
int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
BUF REQ(FRESH(connack_rc, sizeof(int)))
ASG(*connack_rc)
DES(MQTTSN_CONNACK, 2)
OK1(*connack_rc == BY(buf, buflen, 0))
CAN
;
#define DLEN (duration > 0 ? 3 : 1)
int MQTTSNSerialize_disconnectLength(int duration)
REQ(duration <= 65535) ASG() E(RV == DLEN)
CAN
;
int MQTTSNSerialize_disconnect(unsigned char* buf, int buflen, int duration)
BUF REQ(duration <= 65535)
SER(DLEN)
OKS(HDR(buf, DLEN, MQTTSN_DISCONNECT) && IMP(duration > 0, SI(buf, DLEN, 0) == duration))
CAN
;
int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
BUF REQ(FRESH(duration, sizeof(int)))
ASG(*duration)
E((RV == 1) == (IS(buf, buflen, MQTTSN_DISCONNECT, 1) && (REST(buf, buflen, 0) == 0 || REST(buf, buflen, 0) == 2)))
E(IMP(RV == 1 && REST(buf, buflen, 0) == 2, *duration == BI(buf, buflen, 0)))
E(IMP(RV == 1 && REST(buf, buflen, 0) == 0, *duration == __CPROVER_old(*duration)))
CAN
;
#define NOBODY(t) BUF SER(1) OKS(HDR(buf, 1, t))
int MQTTSNSerialize_willtopicreq(unsigned char* buf, int buflen)
NOBODY(MQTTSN_WILLTOPICREQ)
CAN
;
int MQTTSNSerialize_willmsgreq(unsigned char* buf, int buflen)
NOBODY(MQTTSN_WILLMSGREQ)
CAN
;
int MQTTSNSerialize_pingresp(unsigned char* buf, int buflen)
NOBODY(MQTTSN_PINGRESP)
CAN
;
#define REQ1(t) BUF ASG() E((RV == 1) == (IS(buf, buflen, t, 1) && HL(buf, buflen) == 1))
int MQTTSNDeserialize_willtopicreq(unsigned char* buf, int buflen)
REQ1(MQTTSN_WILLTOPICREQ)
CAN
;
int MQTTSNDeserialize_willmsgreq(unsigned char* buf, int buflen)
REQ1(MQTTSN_WILLMSGREQ)
CAN
;
int MQTTSNDeserialize_pingresp(unsigned char* buf, int buflen)
BUF ASG() DES(MQTTSN_PINGRESP, 1)
CAN
;
#define PLEN1 (1 + SLEN(clientid))
int MQTTSNSerialize_pingreq(unsigned char* buf, int buflen, MQTTSNString clientid)
BUF STRARG(clientid) SER(PLEN1)
OKS(HDR(buf, PLEN1, MQTTSN_PINGREQ) && COPIED(buf, PLEN1, 0, SPTR(clientid), SLEN(clientid)))
CAN
;
int MQTTSNDeserialize_pingreq(MQTTSNString* clientID, unsigned char* buf, int len)
LBUF REQ(FRESH(clientID, sizeof(MQTTSNString)))
ASG(*clientID)
E((RV == 1) == (IS(buf, len, MQTTSN_PINGREQ, 1)))
OK1(STRRES(*clientID, buf, len, 0))
OKB(clientID->cstring == NULL && WITHIN(clientID->lenstring.data, clientID->lenstring.len, buf, len))
CAN
;
#define WLEN (2 + SLEN(willTopic))
#define WILLT(t) BUF STRARG(willTopic) REQ(willQoS >= 0 && willQoS <= 3 && willRetain <= 1) SER(WLEN) \
	OKS(HDR(buf, WLEN, t) && SB(buf, WLEN, 0) == (willQoS << 5 | willRetain << 4) && COPIED(buf, WLEN, 1, SPTR(willTopic), SLEN(willTopic)))
int MQTTSNSerialize_willtopic(unsigned char* buf, int buflen, int willQoS, unsigned char willRetain, MQTTSNString willTopic)
WILLT(MQTTSN_WILLTOPIC)
CAN
;
int MQTTSNSerialize_willtopicupd(unsigned char* buf, int buflen, int willQoS, unsigned char willRetain, MQTTSNString willTopic)
WILLT(MQTTSN_WILLTOPICUPD)
CAN
;
#define WMLEN (1 + SLEN(willMsg))
#define WILLM(t) BUF STRARG(willMsg) SER(WMLEN) OKS(HDR(buf, WMLEN, t) && COPIED(buf, WMLEN, 0, SPTR(willMsg), SLEN(willMsg)))
int MQTTSNSerialize_willmsg(unsigned char* buf, int buflen, MQTTSNString willMsg)
WILLM(MQTTSN_WILLMSG)
CAN
;
int MQTTSNSerialize_willmsgupd(unsigned char* buf, int buflen, MQTTSNString willMsg)
WILLM(MQTTSN_WILLMSGUPD)
CAN
;
#define WILLTD(t) LBUF REQ(FRESH(willQoS, sizeof(int)) && FRESH(willRetain, 1) && FRESH(willTopic, sizeof(MQTTSNString))) \
	ASG(*willQoS, *willRetain, *willTopic) \
	E((RV == 1) == (IS(buf, len, t, 2))) \
	OK1(*willQoS == ((FL(buf, len) >> 5) & 3) && *willRetain == ((FL(buf, len) >> 4) & 1) && STRRES(*willTopic, buf, len, 1)) \
	OKB(willTopic->cstring == NULL && WITHIN(willTopic->lenstring.data, willTopic->lenstring.len, buf, len))
int MQTTSNDeserialize_willtopic(int* willQoS, unsigned char* willRetain, MQTTSNString* willTopic, unsigned char* buf, int len)
WILLTD(MQTTSN_WILLTOPIC)
CAN
;
int MQTTSNDeserialize_willtopicupd(int* willQoS, unsigned char* willRetain, MQTTSNString* willTopic, unsigned char* buf, int len)
WILLTD(MQTTSN_WILLTOPICUPD)
CAN
;
#define WILLMD(t) LBUF REQ(FRESH(willMsg, sizeof(MQTTSNString))) ASG(*willMsg) \
	E((RV == 1) == (IS(buf, len, t, 1))) OK1(STRRES(*willMsg, buf, len, 0)) \
	OKB(willMsg->cstring == NULL && WITHIN(willMsg->lenstring.data, willMsg->lenstring.len, buf, len))
int MQTTSNDeserialize_willmsg(MQTTSNString* willMsg, unsigned char* buf, int len)
WILLMD(MQTTSN_WILLMSG)
CAN
;
int MQTTSNDeserialize_willmsgupd(MQTTSNString* willMsg, unsigned char* buf, int len)
WILLMD(MQTTSN_WILLMSGUPD)
CAN
;
#define RESPS(t) BUF REQ(resp_rc >= 0 && resp_rc <= 255) SER(2) OKS(HDR(buf, 2, t) && SB(buf, 2, 0) == resp_rc)
int MQTTSNSerialize_willtopicresp(unsigned char* buf, int buflen, int resp_rc)
RESPS(MQTTSN_WILLTOPICRESP)
CAN
;
int MQTTSNSerialize_willmsgresp(unsigned char* buf, int buflen, int resp_rc)
RESPS(MQTTSN_WILLMSGRESP)
CAN
;
#define RESPD(t) BUF REQ(FRESH(resp_rc, sizeof(int))) ASG(*resp_rc) DES(t, 2) OK1(*resp_rc == BY(buf, buflen, 0))
int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen)
RESPD(MQTTSN_WILLTOPICRESP)
CAN
;
int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
RESPD(MQTTSN_WILLMSGRESP)
CAN
;
#endif
#endif
