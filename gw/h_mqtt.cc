// Contracts of MQTTGWPacket: building (C07) and receiving / parsing (C08) MQTT 3.1.1 packets.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTGWPacket.h"
int vp_batch = 300;
using namespace MQTTSNGW;
// ---- contracts of the collaborators -------------------------------------------------
static unsigned char* in; static int inlen, inpos, pieces;                  // what the broker sends, in how many pieces after the header
static unsigned char* out; static int outlen, sends;
// recv: error, close, or 1..len bytes of the stream (bounded: the payload comes in at most 3 pieces)
int Network::recv(uint8_t* buf, uint16_t len)
{
	int left = inlen - inpos;
	INSIDE(len > 0);
	if (left <= 0) return vp_int(-1, 0);
	int m = left < len ? left : len, n = vp_int(1, m);
	if (len > 1 && ++pieces == 3) ASSUME(n == m);
	INSIDE(vp_readable(buf, len));
	memcpy(buf, in + inpos, n);
	inpos += n;
	return n;
}
int Network::send(const uint8_t* buf, uint16_t length)
{
	INSIDE(vp_readable(buf, length));
	out = (unsigned char*)malloc(length); ASSUME(out != 0);
	memcpy(out, buf, length); outlen = length; sends++;
	return vp_int(-1, length);
}
// ---- specification ------------------------------------------------------------------
#define B(i) ((int)p[i])
static int hdr(int rem) { return rem < 128 ? 2 : rem < 16384 ? 3 : rem < 2097152 ? 4 : 5; }
// p[0..] starts with first byte, remaining length rem in the MQTT variable length encoding
static bool head(const unsigned char* p, int first, int rem)
{
	if (B(0) != first) return false;
	if (rem < 128) return B(1) == rem;
	if (rem < 16384) return B(1) == ((rem & 127) | 128) && B(2) == rem >> 7;
	if (rem < 2097152) return B(1) == ((rem & 127) | 128) && B(2) == ((rem >> 7 & 127) | 128) && B(3) == rem >> 14;
	return B(1) == ((rem & 127) | 128) && B(2) == ((rem >> 7 & 127) | 128) && B(3) == ((rem >> 14 & 127) | 128) && B(4) == rem >> 21;
}
static int u16at(const unsigned char* p, int i) { return B(i) * 256 + B(i + 1); }
// what is sent of m (vph_data): first byte, remaining length, then these bytes
#define BODY(first, rem) POST((unsigned char)m._header.byte == (first)); POST(m._remainingLength == (rem)); INSIDE(vp_readable(m._data, rem)); unsigned char* b = m._data
// a packet object that already holds something, so that set* must replace it
static void used(MQTTGWPacket& m)
{
	m._header.byte = vp_u8();
	if (vp_bool()) { int n = vp_int(0, 40); m._data = vp_new(n); m._remainingLength = n; }
}
extern "C" {
void vph_publish()
{
	MQTTGWPacket m; used(m);
	vp_calloc_any();
	Publish pub = MQTTPacket_Publish_Initializer;
	pub.header.byte = vp_u8(); pub.topiclen = vp_len(65535); pub.payloadlen = vp_len(200000); pub.msgId = vp_u16();
	unsigned char* t = vp_new(pub.topiclen); unsigned char* l = vp_new(pub.payloadlen);
	pub.topic = (char*)t; pub.payload = (char*)l;
	int k = vp_index(pub.topiclen), j = vp_index(pub.payloadlen);
	bool id = pub.header.bits.qos > 0;
	vp_track(2 + k); vp_track(2 + pub.topiclen + (id ? 2 : 0) + j);
	POST(m.setPUBLISH(&pub) == 1);
	BODY(3 << 4 | (pub.header.byte & 15), 2 + pub.topiclen + (id ? 2 : 0) + pub.payloadlen);
	POST(u16at(b, 0) == pub.topiclen);
	if (0 <= k && k < pub.topiclen) POST(b[2 + k] == t[k]);
	if (id) POST(u16at(b, 2 + pub.topiclen) == pub.msgId);
	if (0 <= j && j < pub.payloadlen) POST(b[2 + pub.topiclen + (id ? 2 : 0) + j] == l[j]);
	REACH;
}
void vph_subscribe()
{
	MQTTGWPacket m; used(m);
	int tn = vp_len(65535), qos = vp_int(0, 2), id = vp_u16(); char* t = vp_cstr(tn); int k = vp_index(tn);
	vp_track(4 + k);
	POST(m.setSUBSCRIBE(t, qos, id) == 1);
	BODY(0x82, tn + 5); POST(u16at(b, 0) == id); POST(u16at(b, 2) == tn); POST(b[4 + tn] == qos);
	if (0 <= k && k < tn) POST(b[4 + k] == (unsigned char)t[k]);
	UTF8String s = m.getTopic();
	POST(s.len == tn); POST(s.data == (char*)m._data + 4);
	POST(m.getMsgId() == id);
	REACH;
}
void vph_unsubscribe()
{
	MQTTGWPacket m; used(m);
	int tn = vp_len(65535), id = vp_u16(); char* t = vp_cstr(tn); int k = vp_index(tn);
	vp_track(4 + k);
	POST(m.setUNSUBSCRIBE(t, id) == 1);
	BODY(0xA2, tn + 4); POST(u16at(b, 0) == id); POST(u16at(b, 2) == tn);
	if (0 <= k && k < tn) POST(b[4 + k] == (unsigned char)t[k]);
	UTF8String s = m.getTopic();
	POST(s.len == tn); POST(s.data == (char*)m._data + 4);
	REACH;
}
void vph_ack()
{
	MQTTGWPacket m; used(m);
	static const unsigned char T[] = { PUBACK, PUBREC, PUBREL, PUBCOMP, UNSUBACK };
	int ty = T[vp_int(0, 4)], id = vp_u16();
	POST(m.setAck(ty, id) == 1);
	BODY(ty << 4 | (ty == PUBREL ? 2 : 0), 2); POST(u16at(b, 0) == id);
	POST(m.getMsgId() == id); POST(m.getType() == ty);
	REACH;
}
void vph_header()
{
	MQTTGWPacket m; used(m);
	int ty = vp_int(CONNECT, DISCONNECT);
	m.setHeader(ty);
	POST((unsigned char)m._header.byte == ty << 4); POST(m._remainingLength == 0);
	REACH;
}
}
// CONNECT, of the strings one (x) is looked at in each unit, the fixed fields in another (x = 5)
static void connect(int x)
{
	MQTTGWPacket m; used(m);
	vp_calloc_any();
	Connect c = MQTTPacket_Connect_Initializer;
	c.header.byte = 0x10; c.flags.all = vp_u8() & 0xFE; c.keepAliveTimer = vp_u16(); c.version = vp_int(3, 4);
	int ci = vp_len(65535), wt = vp_len(65535), wm = vp_len(65535), us = vp_len(65535), pw = vp_len(65535);
	c.clientID = vp_cstr(ci); c.willTopic = vp_cstr(wt); c.willMsg = vp_cstr(wm);
	char* u = vp_cstr(us); char* w = vp_cstr(pw);
	int o = c.version == 3 ? 12 : 10, pos[5], len[5] = { ci, wt, wm, us, pw }; char* s[5] = { c.clientID, c.willTopic, c.willMsg, u, w };
	bool has[5] = { true, (c.flags.all & 4) != 0, (c.flags.all & 4) != 0, (c.flags.all & 0x80) != 0, (c.flags.all & 0x40) != 0 };
	for (int i = 0; i < 5; i++) { pos[i] = o; if (has[i]) o += 2 + len[i]; }
	int kk = 0, f = vp_int(2, 7);
	if (x < 5) { kk = vp_index(len[x]); vp_track(pos[x] + 2 + kk); }
	else vp_track(f);
	POST(m.setCONNECT(&c, (unsigned char*)u, (unsigned char*)w) == 1);
	BODY(0x10, o);
	if (x == 5)
	{
		const char* head = c.version == 3 ? "\0\6MQIsdp" : "\0\4MQTT\4";
		POST(u16at(b, 0) == head[1]); if (f < 2 + head[1]) POST(b[f] == head[f]);
		POST(b[2 + head[1]] == c.version);
		int q = c.version == 3 ? 9 : 7;
		POST(b[q] == c.flags.all); POST(u16at(b, q + 1) == c.keepAliveTimer);
	}
	else if (has[x]) { POST(u16at(b, pos[x]) == len[x]); if (0 <= kk && kk < len[x]) POST(b[pos[x] + 2 + kk] == (unsigned char)s[x][kk]); }
	REACH;
}
extern "C" {
void vph_connect_id() { connect(0); }
void vph_connect_willtopic() { connect(1); }
void vph_connect_willmsg() { connect(2); }
void vph_connect_user() { connect(3); }
void vph_connect_password() { connect(4); }
void vph_connect_fixed() { connect(5); }
void vph_copy()
{
	MQTTGWPacket m, c; used(c);
	m._header.byte = vp_u8(); m._remainingLength = vp_len(200000); m._data = vp_new(m._remainingLength);
	int k = vp_index(m._remainingLength), L = m._remainingLength, h = m._header.byte; unsigned char old = 0; if (0 <= k && k < L) old = m._data[k];
	vp_track(k);
	c = m;
	POST(c._data != m._data); POST(m._remainingLength == L && m._header.byte == h); POST(c._remainingLength == L && c._header.byte == h);
	INSIDE(vp_readable(c._data, L)); if (0 <= k && k < L) { POST(c._data[k] == old); POST(m._data[k] == old); }
	REACH;
}
void vph_data()
{
	MQTTGWPacket m; m._header.byte = vp_u8(); m._remainingLength = vp_len(3000000); m._data = m._remainingLength ? vp_new(m._remainingLength) : 0;
	int L = m._remainingLength, k = vp_index(L), n = m.getPacketLength(); unsigned char first = m._header.byte;
	POST(n == hdr(L) + L);
	unsigned char* p = vp_new(n);
	vp_track(hdr(L) + k);
	POST(m.getPacketData(p) == n);
	POST(head(p, first, L)); if (0 <= k && k < L) POST(p[hdr(L) + k] == m._data[k]);
	REACH;
}
void vph_send()
{
	MQTTGWPacket m; m._header.byte = vp_u8(); m._remainingLength = vp_len(65000); m._data = m._remainingLength ? vp_new(m._remainingLength) : 0;
	int L = m._remainingLength, k = vp_index(L), h = m._header.byte;
	sends = 0;
	Network* net = (Network*)vp_new(8);
	for (int i = 0; i < 5; i++) vp_track(i);
	vp_track(hdr(L) + k);
	m.send(net);
	POST(sends == 1); POST(outlen == hdr(L) + L); POST(head(out, h & 255, L)); if (0 <= k && k < L) POST(out[hdr(L) + k] == m._data[k]);
	REACH;
}
// ---- receiving and parsing (C08)
void vph_recv()
{
	vp_calloc_any(); inlen = vp_len(65000); inpos = pieces = 0; in = vp_new(inlen);
	MQTTGWPacket m; Network* net = (Network*)vp_new(8);
	int k = vp_index(inlen); vp_track(0); vp_track(k);
	int rc = m.recv(net);
	// the packet at the head of the stream
	unsigned char* p = in; int L = -1, h = 0;
	if (inlen >= 2 && B(1) < 128) L = B(1), h = 2;
	else if (inlen >= 3 && B(2) < 128) L = (B(1) & 127) + B(2) * 128, h = 3;
	else if (inlen >= 4 && B(3) < 128) L = (B(1) & 127) + (B(2) & 127) * 128 + B(3) * 16384, h = 4;
	if (L >= 0 && h + L <= inlen)
	{
		POST(rc == h + L); POST(inpos == h + L);
		POST(m._remainingLength == L); POST((unsigned char)m._header.byte == B(0));
		if (0 <= k && k < L) POST(m._data[k] == in[h + k]);
		REACH;
	}
	else POST(rc <= 0);
}
static void received(MQTTGWPacket& m, int type)
{
	m._header.byte = (vp_u8() & 15) | type << 4; m._remainingLength = vp_len(100000); m._data = m._remainingLength ? vp_new(m._remainingLength) : 0;
}
void vph_getack()
{
	MQTTGWPacket m; int ty = vp_int(0, 15); received(m, ty); Ack a; a.msgId = -7;
	unsigned char* p = m._data; int L = m._remainingLength;
	bool is = ty == PUBACK || ty == PUBREC || ty == PUBREL || ty == PUBCOMP || ty == UNSUBACK;
	int rc = m.getAck(&a);
	POST((rc == 1) == (is && L >= 2));
	if (rc == 1) { POST(a.msgId == u16at(p, 0)); POST(a.header.byte == m._header.byte); REACH; }
}
void vph_getconnack()
{
	MQTTGWPacket m; int ty = vp_int(0, 15); received(m, ty); Connack a;
	unsigned char* p = m._data; int L = m._remainingLength;
	int rc = m.getCONNACK(&a);
	POST((rc == 1) == (ty == CONNACK && L >= 2));
	if (rc == 1) { POST(a.flags.all == B(0)); POST((unsigned char)a.rc == B(1)); POST(a.header.byte == m._header.byte); REACH; }
}
void vph_getsuback()
{
	MQTTGWPacket m; int ty = vp_int(0, 15); received(m, ty); unsigned short id; unsigned char c;
	unsigned char* p = m._data; int L = m._remainingLength;
	int rc = m.getSUBACK(&id, &c);
	POST((rc == 1) == (ty == SUBACK && L >= 3));
	if (rc == 1) { POST(id == u16at(p, 0)); POST(c == B(2)); REACH; }
}
void vph_getpublish()
{
	MQTTGWPacket m; int ty = vp_int(0, 15); received(m, ty); Publish a;
	unsigned char* p = m._data; int L = m._remainingLength, q = m._header.bits.qos, f = q ? 4 : 2;
	int rc = m.getPUBLISH(&a);
	bool ok = ty == PUBLISH && L >= f; if (ok) ok = u16at(p, 0) + f <= L;
	POST((rc == 1) == ok);
	if (rc == 1)
	{
		POST(a.header.byte == m._header.byte); POST(a.topiclen == u16at(p, 0)); POST(a.topic == (char*)p + 2);
		POST(a.msgId == (q ? u16at(p, 2 + a.topiclen) : 0)); POST(a.payload == (char*)p + f + a.topiclen); POST(a.payloadlen == L - f - a.topiclen);
		REACH;
	}
}
void vph_msgid()
{
	MQTTGWPacket m; int ty = vp_int(0, 15); received(m, ty);
	unsigned char* p = m._data; int L = m._remainingLength, q = m._header.bits.qos, id = vp_u16(), want = 0, at = -1, k = vp_index(L);
	if (ty == PUBLISH) { if (q && L >= 4 && u16at(p, 0) + 4 <= L) at = 2 + u16at(p, 0); }
	else if ((ty >= PUBACK && ty <= UNSUBACK) && L >= 2) at = 0;
	if (at >= 0) want = u16at(p, at);
	POST(m.getMsgId() == want);
	unsigned char old = 0; if (0 <= k && k < L) old = p[k];
	int h = m._header.byte;
	m.setMsgId(id);
	POST(m._data == p && m._remainingLength == L && m._header.byte == h);
	POST(m.getMsgId() == (at >= 0 ? id : 0));
	if (0 <= k && k < L && !(at >= 0 && (k == at || k == at + 1))) POST(p[k] == old);
	REACH;
}
void vph_gettopic()
{
	MQTTGWPacket m; int ty = vp_int(0, 15); received(m, ty);
	unsigned char* p = m._data; int L = m._remainingLength;
	UTF8String s = m.getTopic();
	bool ok = (ty == SUBSCRIBE || ty == UNSUBSCRIBE) && L >= 4; if (ok) ok = u16at(p, 2) + 4 <= L;
	if (ok) { POST(s.len == u16at(p, 2)); POST(s.data == (char*)p + 4); REACH; }
	else POST(s.len == 0);
}
}
