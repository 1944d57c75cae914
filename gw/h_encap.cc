// Contracts of the forwarder's encapsulation (C10) and of the log of received packets.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWPacket.h"
#include "SensorNetwork.h"
#include "MQTTSNGWEncapsulatedPacket.h"
#include "MQTTSNPacket.h"
#include "SensorNetwork.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWClientRecvTask.h"
#include "MQTTSNGWProcess.h"
using namespace MQTTSNGW;
typedef MQTTSNGWEncapsulatedPacket E;
// ---- collaborators
static const uint8_t* sent; static int sentlen, sends, k; static uint8_t sentk, sent3[3]; static void* to;
int SensorNetwork::unicast(const uint8_t* p, uint16_t n, SensorNetAddress* a)
{
	INSIDE(vp_readable(p, n)); sentlen = n; sends++; to = a; for (int i = 0; i < 3; i++) sent3[i] = p[i]; if (0 <= k && k < n) sentk = p[k]; return vp_int(-1, n);
}
static char* text() { int n = vp_len(12); return vp_cstr(n); }
char* Client::getClientId(void) { return text(); }
char* currentDateTime(void) { return (char*)"t"; }
// the log: its arguments are C strings
void Process::putLog(const char* f, ...) { }
// ---- any node id, any packet
static int idl, L; static unsigned char* idp;
static void anyid(WirelessNodeId& w, int max = 252) { idl = vp_len(max); idp = w._nodeId = vp_new(idl); w._len = idl; }
static MQTTSNPacket* any() { MQTTSNPacket* m = new MQTTSNPacket; L = m->_bufLen = vp_int(0, MQTTSNGW_MAX_PACKET_SIZE); m->_buf = L ? vp_new(L) : 0; return m; }
// byte i of the encapsulation of m (may be none) for the node id
static int enc(MQTTSNPacket* m, int ctrl, int i) { return i == 0 ? idl + 3 : i == 1 ? 0xfe : i == 2 ? ctrl : i < idl + 3 ? idp[i - 3] : m->_buf[i - idl - 3]; }
extern "C" {
void vph_nodeid_set()
{
	WirelessNodeId w; if (vp_bool()) { w._len = 3; w._nodeId = (uint8_t*)malloc(3); }
	int n = vp_len(255); unsigned char* p = vp_new(n); k = vp_index(n); vp_track(k);
	if (vp_bool()) w.setId(p, n); else { WirelessNodeId v; v._nodeId = (uint8_t*)malloc(n); memcpy(v._nodeId, p, n); v._len = n; w.setId(&v); }
	POST(w._len == n); INSIDE(vp_readable(w._nodeId, n)); POST(n == 0 || w._nodeId != p); if (0 <= k && k < n) POST(w._nodeId[k] == p[k]);
	REACH;
}
void vph_nodeid_equal()
{
	WirelessNodeId v, w; anyid(v, 4); int a = idl; unsigned char* p = idp; anyid(w, 4); bool want = a == idl; for (int i = 0; i < 4; i++) if (i < a && want) want = p[i] == idp[i];
	POST((v == w) == want);
	REACH;
}
void vph_encap_serialize()
{
	MQTTSNPacket* m = vp_bool() ? any() : 0; if (!m) L = 0; E e; e._mqttsn = (decltype(e._mqttsn))m; anyid(e._id); int ctrl = e._ctrl = vp_u8(); k = vp_index(idl + 3 + L);
	unsigned char* out = vp_new(idl + 3 + L); vp_track(k); vp_track(k - idl - 3); for (int i = -3; i < 3; i++) vp_track(i == -3 ? k - 3 : i);
	int n = e.serialize(out);
	POST(n == idl + 3 + L); if (0 <= k && k < n) POST(out[k] == enc(m, ctrl, k));
	REACH;
}
// what is sent to the forwarder: length octet, type, control, node id, packet; all of it inside the buffer
void vph_encap_unicast()
{
	MQTTSNPacket* m = any(); E e; e._mqttsn = (decltype(e._mqttsn))m; anyid(e._id); int ctrl = e._ctrl = vp_u8(); k = vp_index(idl + 3 + L); sends = 0; vp_track(k); vp_track(k - 3); vp_track(k - idl - 3);
	e.unicast((SensorNetwork*)m, (SensorNetAddress*)&e);
	POST(sends == 1 && to == (void*)&e && sentlen == idl + 3 + L); if (0 <= k && k < sentlen) POST(sentk == enc(m, ctrl, k));
	REACH;
}
// any received bytes: the node id and the packet are exactly those the header delimits, or there is neither
void vph_encap_parse()
{
	int n = vp_len(MQTTSNGW_MAX_PACKET_SIZE); unsigned char* in = vp_new(n); E e; if (vp_bool()) e._mqttsn = any(); k = vp_index(n); vp_track(k - 3); int h = n ? in[0] : 0; vp_track(k - h); vp_calloc_any();
	bool ok = n >= 3 && h >= 3 && h <= n;
	int rc = e.desirialize(in, n);
	MQTTSNPacket* m = (MQTTSNPacket*)e.getMQTTSNPacket(); POST(m != 0); POST(rc == (ok ? h : 0));
	if (ok)
	{
		POST(e._ctrl == in[2]); POST(e._id._len == h - 3); if (3 <= k && k < h) POST(e._id._nodeId[k - 3] == in[k]);
		POST(m->_bufLen == n - h); INSIDE(vp_readable(m->_buf, n - h)); if (h <= k && k < n) POST(m->_buf[k - h] == in[k]);
		REACH;
	}
	else { POST(e._id._len == 0 && m->_bufLen == 0); POST(m->getType() == 0); }
}
void vph_encap_print()
{
	MQTTSNPacket* m = new MQTTSNPacket; L = m->_bufLen = vp_int(0, SIZE_OF_LOG_PACKET + 2); m->_buf = L ? vp_new(L) : 0; E e; e._mqttsn = (decltype(e._mqttsn))m; anyid(e._id, 3); for (int i = 0; i < 6; i++) vp_track(i);
	char* pbuf = (char*)vp_new(SIZE_OF_LOG_PACKET * 3 + 1); POST(e.print(pbuf) == pbuf); int s = 3 + idl + L < SIZE_OF_LOG_PACKET ? 3 + idl + L : SIZE_OF_LOG_PACKET; POST(pbuf[3 * (s - 1)] == 0);
	REACH;
}
// the log of any packet from any sender stays inside its buffers
void vph_log_received()
{
	MQTTSNPacket m; L = m._bufLen = vp_int(0, SIZE_OF_LOG_PACKET + 2); m._buf = L ? vp_new(L) : 0;
	ClientRecvTask* t = (ClientRecvTask*)malloc(sizeof(ClientRecvTask)); Client* c = vp_bool() ? (Client*)t : 0;
	MQTTSNString s; s.cstring = vp_bool() ? text() : 0; s.lenstring.len = vp_len(12); s.lenstring.data = (char*)vp_new(s.lenstring.len);
	t->log(c, &m, vp_bool() ? &s : 0);
	REACH;
}
}
