// The forwarder lists (C10) of any length: the loops over the lists by invariant (window.h).
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "SensorNetwork.h"
#include "MQTTSNGWPacket.h"
#include "MQTTSNGWEncapsulatedPacket.h"
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWClient.h"
using namespace MQTTSNGW;
#include "window.h"
static void* vp_block(size_t n) { return malloc(n); }
static int locks;
Mutex::Mutex() {} Mutex::~Mutex() {}
void Mutex::lock() { POST(locks == 0); locks++; }
void Mutex::unlock() { POST(locks == 1); locks--; }
static char cl[2]; static Forwarder* owner[2];	// the client of the call, and the others
#define MINE ((Client*)&cl[0])
#define OTHER ((Client*)&cl[1])
void Client::setForwarder(Forwarder* f) { POST(this == MINE); owner[0] = f; }
SensorNetAddress::SensorNetAddress() {} SensorNetAddress::~SensorNetAddress() {}
bool SensorNetAddress::isMatch(SensorNetAddress* a) { return _portNo == a->_portNo && _IpAddr == a->_IpAddr; }
SensorNetAddress& SensorNetAddress::operator=(SensorNetAddress& a) { _portNo = a._portNo; _IpAddr = a._IpAddr; return *this; }
// a node id, by its contract (h_encap.cc): one of 2^16 values
WirelessNodeId::WirelessNodeId() { _len = 0; _nodeId = 0; } WirelessNodeId::~WirelessNodeId() {}
bool WirelessNodeId::operator==(WirelessNodeId& o) { return *(uint16_t*)_nodeId == *(uint16_t*)o._nodeId; }
void WirelessNodeId::setId(WirelessNodeId* o) { _nodeId = (uint8_t*)malloc(2); *(uint16_t*)_nodeId = *(uint16_t*)o->_nodeId; }
static WirelessNodeId* id(int x) { WirelessNodeId* w = new WirelessNodeId; w->_nodeId = (uint8_t*)malloc(2); *(uint16_t*)w->_nodeId = x; return w; }
static int num(WirelessNodeId* w) { return *(uint16_t*)w->_nodeId; }
// ---- the clients of a forwarder
typedef ForwarderElement E;
static Forwarder* F; static int kid; static bool noClient, noId, lastOnly;
static void any(E* e) { e->_client = vp_bool() ? MINE : OTHER; e->_wirelessNodeId = id(vp_u16()); }
static unsigned long key(E* e) { return num(e->_wirelessNodeId) | (unsigned long)(e->_client == MINE) << 16; }
static Window<E, &E::_next, &E::_next, false, any, key> W;
static bool isMine(E* e) { return e->_client == MINE; }
static bool isId(E* e) { return num(e->_wirelessNodeId) == kid; }
extern "C" void vp_loop0__ZN8MQTTSNGW9Forwarder9getClientEPNS_14WirelessNodeIdE(void** cur, int again) { W.search(cur, again, isId); if (!again) noId = W.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW9Forwarder17getWirelessNodeIdEPNS_6ClientE(void** cur, int again) { W.search(cur, again, isMine); if (!again) noClient = W.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW9Forwarder9addClientEPNS_6ClientEPNS_14WirelessNodeIdE(void** a, void** b, int again) { W.search2(a, b, again, isMine); if (!again) noClient = W.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW9Forwarder11eraseClientEPNS_6ClientE(void** a, void** b, int again) { W.search2(a, b, again, isMine); if (!again) noClient = W.all; }
extern "C" void vp_wloop0__ZN8MQTTSNGW9ForwarderD2Ev(void** cur, int again) { W.wipe(cur, again); }
extern "C" void vp_frame(void*) { POST(false); }
static void forwarder() { F = (Forwarder*)calloc(1, sizeof(Forwarder)); W.any(1000000); F->_headClient = W.first(); }
static void same(int gone, E* added) { POST(F->_headClient == W.first(gone, added) && locks == 0); W.is(gone, added); }
// ---- the forwarders
static void anyF(Forwarder* f) { f->_sensorNetAddr._portNo = vp_u16(); f->_sensorNetAddr._IpAddr = vp_int(0, 0xffff); f->_headClient = 0; f->_forwarderName.b = 0; }
static unsigned long keyF(Forwarder* f) { return f->_sensorNetAddr._portNo | (unsigned long)f->_sensorNetAddr._IpAddr << 16; }
static Window<Forwarder, &Forwarder::_next, &Forwarder::_next, false, anyF, keyF> V;
static ForwarderList L; static SensorNetAddress x; static bool noAddr;
static bool isAddr(Forwarder* f) { return f->_sensorNetAddr._portNo == x._portNo && f->_sensorNetAddr._IpAddr == x._IpAddr; }
static bool isLast(Forwarder* f) { return f->_next == 0; }
extern "C" void vp_loop0__ZN8MQTTSNGW13ForwarderList12getForwarderEPNS_16SensorNetAddressE(void** cur, int again) { V.search(cur, again, isAddr); if (!again) noAddr = V.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW13ForwarderList12addForwarderEPNS_16SensorNetAddressEP12MQTTSNString(void** cur, int again) { V.search(cur, again, isLast); }
extern "C" void vp_wloop0__ZN8MQTTSNGW13ForwarderListD2Ev(void** cur, int again) { V.wipe(cur, again); }
static void forwarders() { V.any(1000000); L._head = V.first(); x._portNo = vp_u16(); x._IpAddr = vp_int(0, 0xffff); }
extern "C" {
void vph_ffind() { forwarder(); kid = vp_u16(); Client* c = F->getClient(id(kid)); if (noId) POST(c == 0); else POST(W.i < W.n && isId(W.d) && c == W.d->_client); same(-1, 0); REACH; }
void vph_fnode() { forwarder(); WirelessNodeId* w = F->getWirelessNodeId(MINE); if (noClient) POST(w == 0); else POST(W.i < W.n && isMine(W.d) && w == W.d->_wirelessNodeId); same(-1, 0); REACH; }
// after addClient the client has that node id; the other clients keep theirs, in their order
void vph_fadd()
{
	forwarder(); int n = vp_u16(); WirelessNodeId* w = id(n); F->addClient(MINE, w); POST(owner[0] == F);
	if (W.n > 0 && !noClient) { POST(isMine(W.d) && num(W.d->_wirelessNodeId) == n && W.d->_wirelessNodeId != w); W.rekey(); same(-1, 0); }
	else
	{
		E* e = W.n > 0 ? W.z1->_next : F->_headClient; POST(e && e != W.f && e != W.t && e != W.p && e != W.c && e != W.x && e != W.far && isMine(e) && e->_wirelessNodeId && e->_wirelessNodeId != w && num(e->_wirelessNodeId) == n && e->_next == 0);
		same(-1, e); REACH;
	}
}
void vph_ferase() { forwarder(); F->eraseClient(MINE); if (noClient) same(-1, 0); else { POST(W.i < W.n && (W.key(W.i) >> 16) && vp_gone() == W.d); same(W.i, 0); } REACH; }
void vph_fdtor() { forwarder(); F->~Forwarder(); POST(W.n == 0 || W.all); REACH; }
void vph_lget() { forwarders(); Forwarder* f = L.getForwarder(&x); POST(f == (noAddr ? 0 : V.d) && (noAddr || (f && isAddr(f)))); POST(L._head == V.first()); V.is(-1, 0); L._head = 0; REACH; }
void vph_ladd()
{
	forwarders(); MQTTSNString s; s.cstring = vp_name(); Forwarder* g = L.addForwarder(&x, &s);
	POST(g && g != V.f && g != V.t && g != V.p && g != V.c && g != V.x && g != V.far && g->_headClient == 0 && isAddr(g) && g->_next == 0 && strcmp(g->getName(), s.cstring) == 0);
	POST(L._head == V.first(-1, g)); V.is(-1, g); L._head = 0; REACH;
}
void vph_ldtor() { forwarders(); L.~ForwarderList(); POST(V.n == 0 || V.all); L._head = 0; REACH; }
}
