// What the message handlers work with, by contract: packets (C07, C08, C09), queues of events, the log.
// A packet a handler was given has the fields of `I` (MQTT-SN) or `J` (MQTT); what a handler builds is recorded.
#ifndef HAND_H
#define HAND_H
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGateway.h"
#include "SensorNetwork.h"
#include "MQTTSNGWPacket.h"
#include "MQTTGWPacket.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWClientList.h"
#include "MQTTSNGWTopic.h"
#include "MQTTSNGWAdapterManager.h"
#include "MQTTSNGWAggregater.h"
#include "MQTTSNGWQoSm1Proxy.h"
#include "MQTTSNGWProcess.h"
using namespace MQTTSNGW;
extern "C" { unsigned vp_tok(const void* p); size_t vp_toklen(unsigned tok); }
// ---- text: n bytes at p are the text t (a C string)
static bool text_is(const char* p, int n, const char* t)
{
#if defined VP_CBMC && defined VP_TOKENS
	return p != 0 && vp_tok(p) == vp_tok(t) && n == (int)vp_toklen(vp_tok(t));
#else
	return p != 0 && n == (int)strlen(t) && memcmp(p, t, n) == 0;
#endif
}
static int text_len(const char* t)
{
#if defined VP_CBMC && defined VP_TOKENS
	return (int)vp_toklen(vp_tok(t));
#else
	return strlen(t);
#endif
}
char* currentDateTime(void) { return (char*)"t"; }
void Process::putLog(const char* f, ...) {}
// ---- packets that were built
struct Sn { MQTTSNPacket* p; int type, dup, qos, retain, msgid, tid, ttype, rc, dur; const char* name; int namelen; unsigned char* payload; int len; };
struct Mq { MQTTGWPacket* p; int type, msgid, qos; Publish pub; char c0, c1; const char* topic; int topiclen; Connect* con; Connect cc; unsigned char *user, *pass; MQTTGWPacket* copyof; };
static Sn O0, O1, O2, O3; static Mq Q0, Q1, Q2, Q3; static int no, nq, spoilt;	// separate objects: cheaper for cbmc than an array
#define OF(S, i) ((i) == 0 ? &S##0 : (i) == 1 ? &S##1 : (i) == 2 ? &S##2 : &S##3)
#ifndef VP_WIDE
static Sn* sn(MQTTSNPacket* p) { return no > 0 && O0.p == p ? &O0 : no > 1 && O1.p == p ? &O1 : no > 2 && O2.p == p ? &O2 : no > 3 && O3.p == p ? &O3 : 0; }
static Mq* mq(MQTTGWPacket* p) { return nq > 0 && Q0.p == p ? &Q0 : nq > 1 && Q1.p == p ? &Q1 : nq > 2 && Q2.p == p ? &Q2 : nq > 3 && Q3.p == p ? &Q3 : 0; }
static Sn& snslot(MQTTSNPacket* p) { Sn* s = sn(p); if (s) return *s; INSIDE(no < 4); int i = no < 4 ? no++ : 3; s = OF(O, i); s->p = p; return *s; }
static Mq& mqslot(MQTTGWPacket* p) { Mq* s = mq(p); if (s) return *s; INSIDE(nq < 4); int i = nq < 4 ? nq++ : 3; s = OF(Q, i); s->p = p; return *s; }
#else
static Sn OX[64]; static Mq QX[64];
static Sn* sn(MQTTSNPacket* p) { for (int i = 0; i < no && i < 64; i++) { Sn* s = i < 4 ? OF(O, i) : &OX[i]; if (s->p == p) return s; } return 0; }
static Mq* mq(MQTTGWPacket* p) { for (int i = 0; i < nq && i < 64; i++) { Mq* s = i < 4 ? OF(Q, i) : &QX[i]; if (s->p == p) return s; } return 0; }
static Sn& snslot(MQTTSNPacket* p) { Sn* s = sn(p); if (s) return *s; INSIDE(no < 64); int i = no++; s = i < 4 ? OF(O, i) : &OX[i]; s->p = p; return *s; }
static Mq& mqslot(MQTTGWPacket* p) { Mq* s = mq(p); if (s) return *s; INSIDE(nq < 64); int i = nq++; s = i < 4 ? OF(Q, i) : &QX[i]; s->p = p; return *s; }
#endif
#define SET(t) Sn& o = snslot(this); o.type = t
int MQTTSNPacket::setADVERTISE(uint8_t id, uint16_t d) { SET(MQTTSN_ADVERTISE); o.rc = id; o.dur = d; return 5; }
int MQTTSNPacket::setGWINFO(uint8_t id) { SET(MQTTSN_GWINFO); o.rc = id; return 3; }
int MQTTSNPacket::setCONNACK(uint8_t rc) { SET(MQTTSN_CONNACK); o.rc = rc; return 3; }
int MQTTSNPacket::setWILLTOPICREQ() { SET(MQTTSN_WILLTOPICREQ); return 2; }
int MQTTSNPacket::setWILLMSGREQ() { SET(MQTTSN_WILLMSGREQ); return 2; }
int MQTTSNPacket::setREGISTER(uint16_t t, uint16_t m, MQTTSNString* s) { SET(MQTTSN_REGISTER); o.tid = t; o.msgid = m; o.name = s->cstring ? s->cstring : s->lenstring.data; o.namelen = s->cstring ? text_len(s->cstring) : s->lenstring.len; return 6; }
int MQTTSNPacket::setREGACK(uint16_t t, uint16_t m, uint8_t rc) { SET(MQTTSN_REGACK); o.tid = t; o.msgid = m; o.rc = rc; return 7; }
int MQTTSNPacket::setPUBLISH(uint8_t dup, int qos, uint8_t ret, uint16_t m, MQTTSN_topicid t, uint8_t* d, uint16_t n)
{
	SET(MQTTSN_PUBLISH); o.dup = dup; o.qos = qos; o.retain = ret; o.msgid = m; o.ttype = t.type; o.payload = d; o.len = n;
	o.tid = t.type == MQTTSN_TOPIC_TYPE_SHORT ? (unsigned char)t.data.short_name[0] * 256 + (unsigned char)t.data.short_name[1] : t.data.id; return 7;
}
int MQTTSNPacket::setPUBACK(uint16_t t, uint16_t m, uint8_t rc) { SET(MQTTSN_PUBACK); o.tid = t; o.msgid = m; o.rc = rc; return 7; }
int MQTTSNPacket::setPUBREC(uint16_t m) { SET(MQTTSN_PUBREC); o.msgid = m; return 4; }
int MQTTSNPacket::setPUBREL(uint16_t m) { SET(MQTTSN_PUBREL); o.msgid = m; return 4; }
int MQTTSNPacket::setPUBCOMP(uint16_t m) { SET(MQTTSN_PUBCOMP); o.msgid = m; return 4; }
int MQTTSNPacket::setSUBACK(int qos, uint16_t t, uint16_t m, uint8_t rc) { SET(MQTTSN_SUBACK); o.qos = qos; o.tid = t; o.msgid = m; o.rc = rc; return 8; }
int MQTTSNPacket::setUNSUBACK(uint16_t m) { SET(MQTTSN_UNSUBACK); o.msgid = m; return 4; }
int MQTTSNPacket::setPINGRESP() { SET(MQTTSN_PINGRESP); return 2; }
int MQTTSNPacket::setDISCONNECT(uint16_t d) { SET(MQTTSN_DISCONNECT); o.dur = d; return 2; }
int MQTTSNPacket::setWILLTOPICRESP(uint8_t rc) { SET(MQTTSN_WILLTOPICRESP); o.rc = rc; return 3; }
int MQTTSNPacket::setWILLMSGRESP(uint8_t rc) { SET(MQTTSN_WILLMSGRESP); o.rc = rc; return 3; }
// ---- the MQTT-SN packet given to the handler: I.ok is whether it parses
static struct In { MQTTSNPacket* p; bool ok; int type, dup, qos, retain, msgid, ttype, tid, rc, dur, clean, will; char s0, s1; const char* name; int namelen; unsigned char* payload; int len; } I;
#define GET(t) INSIDE(this == I.p); if (!I.ok || I.type != (t)) return 0
static void topic_of(MQTTSN_topicid* t) { t->type = (MQTTSN_topicTypes)I.ttype; if (I.ttype == MQTTSN_TOPIC_TYPE_SHORT) { t->data.short_name[0] = I.s0; t->data.short_name[1] = I.s1; } else t->data.id = I.tid; }
static void filter_of(MQTTSN_topicid* t) { topic_of(t); if (I.ttype == MQTTSN_TOPIC_TYPE_NORMAL) { t->data.long_.name = (char*)I.name; t->data.long_.len = I.namelen; } }
static void string_of(MQTTSNString* s) { s->lenstring.data = (char*)I.name; s->lenstring.len = I.namelen; }
int MQTTSNPacket::getType() { Sn* o = sn(this); if (o) return o->type; INSIDE(this == I.p); return I.type; }
const char* MQTTSNPacket::getName() { return "name"; }
int MQTTSNPacket::getPUBLISH(uint8_t* dup, int* qos, uint8_t* ret, uint16_t* m, MQTTSN_topicid* t, uint8_t** d, int* n) { GET(MQTTSN_PUBLISH); *dup = I.dup; *qos = I.qos; *ret = I.retain; *m = I.msgid; topic_of(t); *d = I.payload; *n = I.len; return 1; }
int MQTTSNPacket::getPUBACK(uint16_t* t, uint16_t* m, uint8_t* rc) { GET(MQTTSN_PUBACK); *t = I.tid; *m = I.msgid; *rc = I.rc; return 1; }
int MQTTSNPacket::getACK(uint16_t* m) { INSIDE(this == I.p); if (!I.ok) return 0; *m = I.msgid; return 1; }
int MQTTSNPacket::getREGISTER(uint16_t* t, uint16_t* m, MQTTSNString* s) { GET(MQTTSN_REGISTER); *t = I.tid; *m = I.msgid; string_of(s); return 1; }
int MQTTSNPacket::getREGACK(uint16_t* t, uint16_t* m, uint8_t* rc) { GET(MQTTSN_REGACK); *t = I.tid; *m = I.msgid; *rc = I.rc; return 1; }
int MQTTSNPacket::getSUBSCRIBE(uint8_t* dup, int* qos, uint16_t* m, MQTTSN_topicid* t) { GET(MQTTSN_SUBSCRIBE); *dup = I.dup; *qos = I.qos; *m = I.msgid; filter_of(t); return 1; }
int MQTTSNPacket::getUNSUBSCRIBE(uint16_t* m, MQTTSN_topicid* t) { GET(MQTTSN_UNSUBSCRIBE); *m = I.msgid; filter_of(t); return 1; }
int MQTTSNPacket::getDISCONNECT(uint16_t* d) { INSIDE(this == I.p); if (!I.ok || I.type != MQTTSN_DISCONNECT) { *d = 0; return -1; } *d = I.dur; return 1; }
int MQTTSNPacket::getCONNECT(MQTTSNPacket_connectData* c) { GET(MQTTSN_CONNECT); c->duration = I.dur; c->cleansession = I.clean; c->willFlag = I.will; c->clientID.cstring = 0; string_of(&c->clientID); return 1; }
int MQTTSNPacket::getWILLTOPIC(int* q, uint8_t* r, MQTTSNString* s) { GET(MQTTSN_WILLTOPIC); *q = I.qos; *r = I.retain; string_of(s); return 1; }
int MQTTSNPacket::getWILLMSG(MQTTSNString* s) { GET(MQTTSN_WILLMSG); string_of(s); return 1; }
int MQTTSNPacket::getMsgId() { INSIDE(this == I.p); return I.msgid; }
char* MQTTSNPacket::getMsgId(char* b) { b[0] = 0; return b; }
bool MQTTSNPacket::isDuplicate() { INSIDE(this == I.p); return I.dup != 0; }
bool MQTTSNPacket::isQoSMinusPUBLISH() { INSIDE(this == I.p); return I.type == MQTTSN_PUBLISH && I.qos == 3; }
char* MQTTSNPacket::print(char* b) { b[0] = 0; return b; }
// ---- the MQTT packet given to the handler
static struct Jn { MQTTGWPacket* p; bool ok; int type, dup, qos, retain, msgid, rc; char* topic; int topiclen; char* payload; int len; } J;
#define GETQ(c) INSIDE(this == J.p || mq(this)); if (!J.ok || !(c)) return 0
int MQTTGWPacket::getType() { return this == J.p ? J.type : mq(this) ? mq(this)->type : 0; }
const char* MQTTGWPacket::getName() { return "name"; }
int MQTTGWPacket::getPUBLISH(Publish* p) { GETQ(J.type == PUBLISH); p->header.byte = 0; p->header.bits.type = PUBLISH; p->header.bits.dup = J.dup; p->header.bits.qos = J.qos; p->header.bits.retain = J.retain; p->topic = J.topic; p->topiclen = J.topiclen; p->msgId = J.msgid; p->payload = J.payload; p->payloadlen = J.len; return 1; }
int MQTTGWPacket::getAck(Ack* a) { GETQ(J.type == PUBACK || J.type == PUBREC || J.type == PUBREL || J.type == PUBCOMP || J.type == UNSUBACK); a->header.byte = 0; a->header.bits.type = J.type; a->msgId = J.msgid; return 1; }
int MQTTGWPacket::getSUBACK(unsigned short* m, unsigned char* rc) { GETQ(J.type == SUBACK); *m = J.msgid; *rc = J.rc; return 1; }
int MQTTGWPacket::getCONNACK(Connack* c) { GETQ(J.type == CONNACK); c->header.byte = 0; c->header.bits.type = CONNACK; c->rc = J.rc; c->flags.all = 0; return 1; }
int MQTTGWPacket::getMsgId() { if (this == J.p) return J.msgid; Mq* q = mq(this); INSIDE(q != 0); return q ? q->msgid : 0; }
char* MQTTGWPacket::getMsgId(char* b) { b[0] = 0; return b; }
void MQTTGWPacket::setMsgId(int m) { if (this == J.p) { J.msgid = m; return; } Mq* q = mq(this); INSIDE(q != 0); if (q) q->msgid = m; }
UTF8String MQTTGWPacket::getTopic() { UTF8String s = { 0, 0 }; Mq* q = mq(this); if (q) { s.data = (char*)q->topic; s.len = q->topiclen; } return s; }
char* MQTTGWPacket::print(char* b) { b[0] = 0; return b; }
#define SETQ(t) Mq& q = mqslot(this); q.type = t
int MQTTGWPacket::setPUBLISH(Publish* p) { SETQ(PUBLISH); q.pub = *p; q.msgid = p->header.bits.qos ? p->msgId : 0; q.qos = p->header.bits.qos; q.topic = p->topic; q.topiclen = p->topiclen; if (p->topiclen == 2) { q.c0 = p->topic[0]; q.c1 = p->topic[1]; } return 1; }
int MQTTGWPacket::setAck(unsigned char t, unsigned short m) { SETQ(t); q.msgid = m; return 1; }
int MQTTGWPacket::setHeader(unsigned char t) { SETQ(t); return 1; }
int MQTTGWPacket::setCONNECT(Connect* c, unsigned char* u, unsigned char* w) { SETQ(CONNECT); q.con = c; q.cc = *c; q.user = u; q.pass = w; return 1; }
// a short topic name is written to the packet as its two characters; the string in the packet is then I.name to the contracts
static void topic_arg(Mq& q, const char* t) { if (I.ttype == MQTTSN_TOPIC_TYPE_SHORT) { q.c0 = t[0]; q.c1 = t[1]; if (t[0] && t[1]) INSIDE(t[2] == 0); q.topic = I.name; } else q.topic = t; q.topiclen = text_len(q.topic); }
int MQTTGWPacket::setSUBSCRIBE(const char* t, unsigned char qos, unsigned short m) { SETQ(SUBSCRIBE); topic_arg(q, t); q.qos = qos; q.msgid = m; return 1; }
int MQTTGWPacket::setUNSUBSCRIBE(const char* t, unsigned short m) { SETQ(UNSUBSCRIBE); topic_arg(q, t); q.msgid = m; return 1; }
MQTTGWPacket& MQTTGWPacket::operator=(MQTTGWPacket& p) { SETQ(p.getType()); q.copyof = &p; return *this; }
// ---- events
struct Ev { EventQue* q; Event* e; };
#ifdef VP_WIDE
#undef NEV
#define NEV 64
#endif
#ifndef NEV
#define NEV 4
#define EVMORE
#endif
#ifdef VP_WIDE
#undef EVMORE
#define EVMORE for (int i = 4; i < NEV; i++) EV(i)
#endif
#define EV(i) if (nev == i) { ev[i].q = this; ev[i].e = e; }
static Ev ev[NEV]; static int nev;
void EventQue::post(Event* e) { INSIDE(nev < NEV); EV(0) EV(1) EV(2) EV(3) EVMORE nev++; }
#ifndef OWN_MUTEX
Mutex::Mutex() {} Mutex::~Mutex() {} void Mutex::lock() {} void Mutex::unlock() {}
#endif
// ---- the gateway and a client
#ifndef OWN_TIMER
static int timerStarts; static unsigned timerMsec;
void Timer::start(uint32_t msec) { timerStarts++; timerMsec = msec; }
bool Timer::isTimeup() { return vp_bool(); }
#endif
static Gateway* G; static Client* C; static AdapterManager* AM; static Aggregater* AG; static QoSm1Proxy* QP; static Topics *TC, *TG; static bool agActive, qpActive;
AdapterManager* Gateway::getAdapterManager() { return AM; }
Aggregater* AdapterManager::getAggregater() { INSIDE(this == AM); return AG; }
QoSm1Proxy* AdapterManager::getQoSm1Proxy() { INSIDE(this == AM); return QP; }
bool AdapterManager::isAggregaterActive() { return agActive; }
bool Aggregater::isActive() { INSIDE(this == AG); return agActive; }
bool QoSm1Proxy::isActive() { INSIDE(this == QP); return qpActive; }
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
static void gateway()
{
	G = raw<Gateway>(); AM = raw<AdapterManager>(); AG = raw<Aggregater>(); QP = raw<QoSm1Proxy>(); TG = raw<Topics>(); TC = raw<Topics>(); G->_topics = TG; agActive = vp_bool(); qpActive = vp_bool();
	C = raw<Client>(); C->_topics = TC; C->_status = (ClientStatus)vp_int(0, 7); C->_clientType = (ClientType)vp_int(0, 5); C->_clientId = (char*)"id"; C->_sessionStatus = vp_bool(); C->_snMsgId = vp_u8(); C->_packetId = vp_int(0, 0xfffe);
}
static void incoming(int type)
{
	I.p = raw<MQTTSNPacket>(); I.ok = vp_bool(); I.type = type; I.dup = vp_int(0, 1); I.qos = vp_int(0, 3); I.retain = vp_int(0, 1); I.msgid = vp_u16(); I.ttype = vp_int(0, 2); I.tid = vp_u16(); I.rc = vp_u8(); I.dur = vp_u16(); I.clean = vp_int(0, 1); I.will = vp_int(0, 1);
	I.s0 = (char)vp_u8(); I.s1 = (char)vp_u8(); I.name = vp_name(); I.namelen = text_len(I.name); I.len = vp_int(0, 1000); I.payload = (unsigned char*)I.p;
}
static void broker(int type)
{
	J.p = raw<MQTTGWPacket>(); J.ok = vp_bool(); J.type = type; J.dup = vp_int(0, 1); J.qos = vp_int(0, 2); J.retain = vp_int(0, 1); J.msgid = vp_u16(); J.rc = vp_u8(); J.topic = vp_name(); J.topiclen = text_len(J.topic); J.len = vp_int(0, 100000); J.payload = (char*)J.p;
}
static bool toBroker(int i, Client* c, MQTTGWPacket* p) { return ev[i].q == &G->_brokerSendQue && ev[i].e->_eventType == EtBrokerSend && ev[i].e->_client == c && ev[i].e->_mqttGWPacket == p; }
static bool toClient(int i, Client* c, MQTTSNPacket* p) { return ev[i].q == &G->_clientSendQue && ev[i].e->_eventType == EtClientSend && ev[i].e->_client == c && ev[i].e->_mqttSNPacket == p; }
#define NOTHING POST(nev == 0)
// exactly one packet sent, to the broker or to the client; q, o: what it is
#define ONE_TO_BROKER(t) POST(nev == 1); POST(ev[0].e->_mqttGWPacket != 0); Mq& q = *mq(ev[0].e->_mqttGWPacket); POST(toBroker(0, C, q.p)); POST(q.type == (t))
#define ONE_TO_CLIENT(t) POST(nev == 1); POST(ev[0].e->_mqttSNPacket != 0); Sn& o = *sn(ev[0].e->_mqttSNPacket); POST(toClient(0, C, o.p)); POST(o.type == (t))
#endif
