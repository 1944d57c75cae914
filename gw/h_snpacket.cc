// Contracts of MQTTSNPacket (C09): the gateway's MQTT-SN packet object.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWPacket.h"
#include "SensorNetwork.h"
#include "MQTTSNPacket.h"
int vp_batch = 300;
using namespace MQTTSNGW;
// ---- the network: any packet up to the buffer's size comes in; what is sent is looked at
static unsigned char* in; static int inlen; static const uint8_t* sent; static int sentlen, sends;
int SensorNetwork::read(uint8_t* buf, uint16_t len)
{
	INSIDE(vp_readable(buf, len)); int n = vp_int(-1, 0);
	if (inlen > 0 && inlen <= len) { n = inlen; memcpy(buf, in, n); }
	return n;
}
int SensorNetwork::unicast(const uint8_t* p, uint16_t n, SensorNetAddress* a) { INSIDE(vp_readable(p, n)); sent = p; sentlen = n; sends++; return vp_int(-1, n); }
int SensorNetwork::broadcast(const uint8_t* p, uint16_t n) { INSIDE(vp_readable(p, n)); sent = p; sentlen = n; sends++; return vp_int(-1, n); }
// ---- specification
#define B(i) ((int)m._buf[i])
static int L;
static void any(MQTTSNPacket& m) { L = m._bufLen = vp_int(0, MQTTSNGW_MAX_PACKET_SIZE); m._buf = L ? vp_new(L) : 0; }
static void used(MQTTSNPacket& m) { if (vp_bool()) { m._bufLen = vp_int(1, 40); m._buf = vp_new(m._bufLen); } }
// where the type octet is, 0 if there is none
static int tpos(MQTTSNPacket& m)
{
	int p = L < 2 ? 0 : B(0) != 1 ? 1 : L < 4 ? 0 : 3;
	return p;
}
static int mpos(MQTTSNPacket& m)
{
	int p = tpos(m), q = 0; if (!p) return 0;
	switch (B(p)) { case MQTTSN_PUBLISH: case MQTTSN_SUBACK: q = p + 4; break; case MQTTSN_PUBACK: case MQTTSN_REGISTER: case MQTTSN_REGACK: q = p + 3; break;
		case MQTTSN_SUBSCRIBE: case MQTTSN_UNSUBSCRIBE: q = p + 2; break; case MQTTSN_PUBREC: case MQTTSN_PUBREL: case MQTTSN_PUBCOMP: case MQTTSN_UNSUBACK: q = p + 1; break; }
	return q && q + 2 <= L ? q : 0;
}
static int u16at(MQTTSNPacket& m, int i) { return B(i) * 256 + B(i + 1); }
#define IS(n, t) POST(m._bufLen == (n)); INSIDE(vp_readable(m._buf, n)); POST(B(0) == (n)); POST(B(1) == (t))
extern "C" {
void vph_sn_type()
{
	MQTTSNPacket m; any(m); int p = tpos(m);
	POST(m.getType() == (p ? B(p) : 0));
	POST(m.isQoSMinusPUBLISH() == (p && p + 1 < L && B(p) == MQTTSN_PUBLISH && (B(p + 1) & 0x60) == 0x60));
	POST(m.isDuplicate() == (p && p + 1 < L && (B(p + 1) & 0x80) != 0));
	POST(m.isAccepted() == (p && p + 1 < L && B(p) == MQTTSN_CONNACK && B(p + 1) == 0));
	POST(m.getPacketData() == m._buf && m.getPacketLength() == L);
	REACH;
}
void vph_sn_msgid()
{
	MQTTSNPacket m; any(m); int q = mpos(m), id = vp_u16(), k = vp_index(L); unsigned char old = 0, *b = m._buf; if (0 <= k && k < L) old = B(k);
	POST(m.getMsgId() == (q ? u16at(m, q) : 0));
	m.setMsgId(id);
	POST(m._buf == b && m._bufLen == L);
	POST(m.getMsgId() == (q ? id : 0));
	if (0 <= k && k < L && !(q && (k == q || k == q + 1))) POST(B(k) == old);
	REACH;
}
void vph_sn_recv()
{
	MQTTSNPacket m; used(m); inlen = vp_int(0, 2000); in = vp_new(inlen); int k = vp_index(inlen), o = m._bufLen; vp_track(k); vp_calloc_any();
	int rc = m.recv((SensorNetwork*)in);
	if (inlen > 1 && inlen <= MQTTSNGW_MAX_PACKET_SIZE) { POST(rc == inlen); POST(m._bufLen == inlen); INSIDE(vp_readable(m._buf, inlen)); if (0 <= k && k < inlen) POST(B(k) == in[k]); REACH; }
	else POST(rc < 2);
}
void vph_sn_copy()
{
	MQTTSNPacket m; any(m); ASSUME(L > 0); int k = vp_index(L); vp_track(k); MQTTSNPacket c(m);
	POST(c._bufLen == L && c._buf != m._buf); INSIDE(vp_readable(c._buf, L)); if (0 <= k && k < L) POST(c._buf[k] == B(k)); REACH;
}
// a packet is sent as it is; one that could not be built is not sent
void vph_sn_send()
{
	MQTTSNPacket m; any(m); sends = 0; bool uni = vp_bool();
	int rc = uni ? m.unicast((SensorNetwork*)&m, 0) : m.broadcast((SensorNetwork*)&m);
	if (L == 0) { POST(sends == 0 && rc < 0); } else { POST(sends == 1 && sent == m._buf && sentlen == L); REACH; }
}
// ---- building
void vph_sn_acks()
{
	MQTTSNPacket m; used(m); int t = vp_u16(), i = vp_u16(), c = vp_u8(), q = vp_int(0, 2);
	switch (vp_int(0, 10))
	{
	case 0: m.setREGACK(t, i, c); IS(7, MQTTSN_REGACK); POST(u16at(m, 2) == t && u16at(m, 4) == i && B(6) == c); break;
	case 1: m.setPUBACK(t, i, c); IS(7, MQTTSN_PUBACK); POST(u16at(m, 2) == t && u16at(m, 4) == i && B(6) == c); break;
	case 2: m.setSUBACK(q, t, i, c); IS(8, MQTTSN_SUBACK); POST(B(2) == q << 5 && u16at(m, 3) == t && u16at(m, 5) == i && B(7) == c); break;
	case 3: m.setPUBREC(i); IS(4, MQTTSN_PUBREC); POST(u16at(m, 2) == i); break;
	case 4: m.setPUBREL(i); IS(4, MQTTSN_PUBREL); POST(u16at(m, 2) == i); break;
	case 5: m.setPUBCOMP(i); IS(4, MQTTSN_PUBCOMP); POST(u16at(m, 2) == i); break;
	case 6: m.setUNSUBACK(i); IS(4, MQTTSN_UNSUBACK); POST(u16at(m, 2) == i); break;
	case 7: m.setCONNACK(c); IS(3, MQTTSN_CONNACK); POST(B(2) == c); break;
	case 8: m.setADVERTISE(c, t); IS(5, MQTTSN_ADVERTISE); POST(B(2) == c && u16at(m, 3) == t); break;
	case 9: m.setGWINFO(c); IS(3, MQTTSN_GWINFO); POST(B(2) == c); break;
	case 10: if (vp_bool()) { m.setWILLTOPICRESP(c); IS(3, MQTTSN_WILLTOPICRESP); } else { m.setWILLMSGRESP(c); IS(3, MQTTSN_WILLMSGRESP); } POST(B(2) == c); break;
	}
	REACH;
}
void vph_sn_plain()
{
	MQTTSNPacket m; used(m); int d = vp_u16();
	switch (vp_int(0, 3))
	{
	case 0: m.setWILLTOPICREQ(); IS(2, MQTTSN_WILLTOPICREQ); break;
	case 1: m.setWILLMSGREQ(); IS(2, MQTTSN_WILLMSGREQ); break;
	case 2: m.setPINGRESP(); IS(2, MQTTSN_PINGRESP); break;
	case 3: m.setDISCONNECT(d); if (d) { IS(4, MQTTSN_DISCONNECT); POST(u16at(m, 2) == d); } else { IS(2, MQTTSN_DISCONNECT); } break;
	}
	REACH;
}
void vph_sn_publish()
{
	MQTTSNPacket m; used(m); vp_calloc_any();
	int dup = vp_int(0, 1), qos = vp_int(0, 3), ret = vp_int(0, 1), id = vp_u16(), n = vp_u16(); MQTTSN_topicid t; t.type = (MQTTSN_topicTypes)vp_int(0, 2); t.data.id = vp_u16();
	ASSUME(qos < 3 || t.type != MQTTSN_TOPIC_TYPE_NORMAL);      // QoS -1 with a topic name is another message layout
	unsigned char* d = vp_new(n); int k = vp_index(n), len = n + 7 > 255 ? n + 9 : n + 7, h = len > 255 ? 3 : 1;
	vp_track(h + 6 + k); vp_track(0); vp_track(1); vp_track(2); for (int i = 0; i < 6; i++) vp_track(h + i);
	m.setPUBLISH(dup, qos, ret, id, t, d, n);
	if (len > MQTTSNGW_MAX_PACKET_SIZE) POST(m._bufLen == 0);
	else
	{
		POST(m._bufLen == len); INSIDE(vp_readable(m._buf, len));
		if (h == 3) POST(B(0) == 1 && u16at(m, 1) == len); else POST(B(0) == len);
		POST(B(h) == MQTTSN_PUBLISH); POST(B(h + 1) == (dup << 7 | qos << 5 | ret << 4 | t.type));
		if (t.type == MQTTSN_TOPIC_TYPE_SHORT) POST(B(h + 2) == (unsigned char)t.data.short_name[0] && B(h + 3) == (unsigned char)t.data.short_name[1]); else POST(u16at(m, h + 2) == t.data.id);
		POST(u16at(m, h + 4) == id);
		if (0 <= k && k < n) POST(B(h + 6 + k) == d[k]);
		REACH;
	}
}
void vph_sn_register()
{
	MQTTSNPacket m; used(m); vp_calloc_any();
	int t = vp_u16(), id = vp_u16(), n = vp_int(1, 65000); unsigned char* d = vp_new(n); MQTTSNString s; s.cstring = 0; s.lenstring.data = (char*)d; s.lenstring.len = n;
	int k = vp_index(n), len = n + 6 > 255 ? n + 8 : n + 6, h = len > 255 ? 3 : 1;
	vp_track(h + 5 + k); vp_track(0); vp_track(1); vp_track(2); for (int i = 0; i < 5; i++) vp_track(h + i);
	m.setREGISTER(t, id, &s);
	if (len > MQTTSNGW_MAX_PACKET_SIZE) POST(m._bufLen == 0);
	else
	{
		POST(m._bufLen == len); INSIDE(vp_readable(m._buf, len));
		if (h == 3) POST(B(0) == 1 && u16at(m, 1) == len); else POST(B(0) == len);
		POST(B(h) == MQTTSN_REGISTER); POST(u16at(m, h + 1) == t && u16at(m, h + 3) == id);
		if (0 <= k && k < n) POST(B(h + 5 + k) == d[k]);
		REACH;
	}
}
// ---- parsing: what the deserializer (C01, C02) says of this packet's bytes
#define SAMES(a, b) (a.cstring == b.cstring && a.lenstring.len == b.lenstring.len && (a.lenstring.len == 0 || a.lenstring.data == b.lenstring.data))
void vph_sn_get_publish()
{
	MQTTSNPacket m; any(m); uint8_t d1, r1, *p1; int q1, n1; uint16_t i1; MQTTSN_topicid t1; unsigned char d2, r2, *p2; int q2, n2; unsigned short i2; MQTTSN_topicid t2;
	int rc = m.getPUBLISH(&d1, &q1, &r1, &i1, &t1, &p1, &n1), want = MQTTSNDeserialize_publish(&d2, &q2, &r2, &i2, &t2, &p2, &n2, m._buf, m._bufLen);
	POST(rc == want); if (rc == 1) { POST(d1 == d2 && q1 == q2 && r1 == r2 && i1 == i2 && p1 == p2 && n1 == n2 && t1.type == t2.type && t1.data.id == t2.data.id); REACH; }
}
void vph_sn_get_ids()
{
	MQTTSNPacket m; any(m); uint16_t t1 = 0, i1 = 0; uint8_t c1 = 0; unsigned short t2 = 0, i2 = 0; unsigned char c2 = 0, ty; int rc = 0, want = 0, d = 0;
	switch (vp_int(0, 4))
	{
	case 0: rc = m.getPUBACK(&t1, &i1, &c1); want = MQTTSNDeserialize_puback(&t2, &i2, &c2, m._buf, L); break;
	case 1: rc = m.getREGACK(&t1, &i1, &c1); want = MQTTSNDeserialize_regack(&t2, &i2, &c2, m._buf, L); break;
	case 2: rc = m.getACK(&i1); want = MQTTSNDeserialize_ack(&ty, &i2, m._buf, L); break;
	case 3: rc = m.getDISCONNECT(&t1); want = MQTTSNDeserialize_disconnect(&d, m._buf, L); t2 = d < 0 ? 0xffff : d; break;
	case 4: rc = m.getSERCHGW(&c1); want = MQTTSNDeserialize_searchgw(&c2, m._buf, L); break;
	}
	POST(rc == want); if (rc == 1) { POST(t1 == t2 && i1 == i2 && c1 == c2); REACH; }
}
void vph_sn_get_topics()
{
	MQTTSNPacket m; any(m); uint8_t d1 = 0; int q1 = 0, q2 = 0; uint16_t i1; MQTTSN_topicid t1, t2; unsigned char d2 = 0; unsigned short i2; int rc, want;
	if (vp_bool()) { rc = m.getSUBSCRIBE(&d1, &q1, &i1, &t1); want = MQTTSNDeserialize_subscribe(&d2, &q2, &i2, &t2, m._buf, L); }
	else { rc = m.getUNSUBSCRIBE(&i1, &t1); want = MQTTSNDeserialize_unsubscribe(&i2, &t2, m._buf, L); }
	POST(rc == want);
	if (rc == 1) { POST(d1 == d2 && q1 == q2 && i1 == i2 && t1.type == t2.type); if (t1.type == MQTTSN_TOPIC_TYPE_NORMAL) POST(t1.data.long_.name == t2.data.long_.name && t1.data.long_.len == t2.data.long_.len); else POST(t1.data.id == t2.data.id); REACH; }
}
void vph_sn_get_strings()
{
	MQTTSNPacket m; any(m); MQTTSNString s1 = MQTTSNString_initializer, s2 = MQTTSNString_initializer; int q1 = 0, q2 = 0, rc = 0, want = 0; uint8_t r1 = 0, q3 = 0; unsigned char r2 = 0; uint16_t t1 = 0, i1 = 0; unsigned short t2 = 0, i2 = 0;
	switch (vp_int(0, 4))
	{
	case 0: rc = m.getWILLTOPIC(&q1, &r1, &s1); want = MQTTSNDeserialize_willtopic(&q2, &r2, &s2, m._buf, L); break;
	case 1: rc = m.getWILLMSG(&s1); want = MQTTSNDeserialize_willmsg(&s2, m._buf, L); break;
	case 2: rc = m.getREGISTER(&t1, &i1, &s1); want = MQTTSNDeserialize_register(&t2, &i2, &s2, m._buf, L); break;
	case 3: rc = m.getWILLTOPICUPD(&q3, &r1, &s1); q1 = q3; want = MQTTSNDeserialize_willtopicupd(&q2, &r2, &s2, m._buf, L); break;
	case 4: rc = m.getWILLMSGUPD(&s1); want = MQTTSNDeserialize_willmsgupd(&s2, m._buf, L); break;
	}
	POST(rc == want); if (rc == 1) { POST(q1 == q2 && r1 == r2 && t1 == t2 && i1 == i2 && SAMES(s1, s2)); REACH; }
}
void vph_sn_get_connect()
{
	MQTTSNPacket m; any(m); MQTTSNPacket_connectData a = MQTTSNPacket_connectData_initializer, b = MQTTSNPacket_connectData_initializer;
	int rc = m.getCONNECT(&a), want = MQTTSNDeserialize_connect(&b, m._buf, L);
	POST(rc == want); if (rc == 1) { POST(a.cleansession == b.cleansession && a.willFlag == b.willFlag && a.duration == b.duration && SAMES(a.clientID, b.clientID)); REACH; }
}
// ---- the log texts stay in the buffers the tasks give them
void vph_sn_print()
{
	MQTTSNPacket m; L = m._bufLen = vp_int(0, SIZE_OF_LOG_PACKET + 2); m._buf = L ? vp_new(L) : 0;
	char* pbuf = (char*)vp_new(SIZE_OF_LOG_PACKET * 3 + 1); char* id = (char*)vp_new(6);
	POST(m.print(pbuf) == pbuf); POST(m.getMsgId(id) == id);
	int s = L < SIZE_OF_LOG_PACKET ? L : SIZE_OF_LOG_PACKET; POST(pbuf[3 * s] == 0);
	REACH;
}
}
