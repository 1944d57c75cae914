// Contracts of the forwarder lists (C10): which client a wireless node is, which forwarder an address is.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "SensorNetwork.h"
#include "MQTTSNGWPacket.h"
#include "MQTTSNGWEncapsulatedPacket.h"
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWClient.h"
using namespace MQTTSNGW;
#ifndef NF
#define NF 3
#endif
typedef ForwarderElement El;
static int locks;
Mutex::Mutex() {} Mutex::~Mutex() {}
void Mutex::lock() { POST(locks == 0); locks++; }
void Mutex::unlock() { POST(locks == 1); locks--; }
static Forwarder* owner[NF + 1]; static char cl[NF + 1];
#define CLIENT(i) ((Client*)&cl[i])
void Client::setForwarder(Forwarder* f) { long i = (char*)this - cl; INSIDE(0 <= i && i <= NF); owner[i] = f; }
SensorNetAddress::SensorNetAddress() {} SensorNetAddress::~SensorNetAddress() {}
bool SensorNetAddress::isMatch(SensorNetAddress* a) { return _portNo == a->_portNo && _IpAddr == a->_IpAddr; }
SensorNetAddress& SensorNetAddress::operator=(SensorNetAddress& a) { _portNo = a._portNo; _IpAddr = a._IpAddr; return *this; }
// ---- a forwarder with n clients; node i of the list is client c[i] of node id v[i] (one byte)
static Forwarder* F; static El* el[NF]; static int n, c[NF], v[NF];
static WirelessNodeId* id(int x) { WirelessNodeId* w = new WirelessNodeId; w->_len = 1; w->_nodeId = (uint8_t*)malloc(1); *w->_nodeId = x; return w; }
#ifdef VP_CBMC
static void other(int) {}
#else
static void other(int i) { for (int j = 0; j < i; j++) if (c[j] == c[i]) { c[i] = (c[i] + 1) % (NF + 1); j = -1; } }	// a client not yet there
#endif
static void forwarder()
{
	F = (Forwarder*)calloc(1, sizeof(Forwarder)); n = vp_int(0, NF);
	for (int i = 0; i < NF; i++) { el[i] = new El; c[i] = vp_int(0, NF); v[i] = vp_u8(); other(i); for (int j = 0; j < i; j++) ASSUME(c[j] != c[i]); el[i]->_client = CLIENT(c[i]); el[i]->_wirelessNodeId = id(v[i]); }
	for (int i = 0; i < n; i++) { if (i) el[i - 1]->_next = el[i]; else F->_headClient = el[0]; }
}
static bool is(El* e, int i) { return e == el[i] && e->_client == CLIENT(c[i]) && e->_wirelessNodeId->_len == 1 && *e->_wirelessNodeId->_nodeId == v[i]; }
extern "C" {
void vph_fwd_find()
{
	forwarder(); int x = vp_u8(), y = vp_int(0, NF); Client* r = 0; WirelessNodeId* w = 0; for (int i = n - 1; i >= 0; i--) { if (v[i] == x) r = CLIENT(c[i]); if (c[i] == y) w = el[i]->_wirelessNodeId; }
	POST(F->getClient(id(x)) == r); POST(F->getWirelessNodeId(CLIENT(y)) == w); POST(locks == 0); int i = vp_index(n); if (0 <= i && i < n) POST(is(el[i], i) && el[i]->_next == (i + 1 < n ? el[i + 1] : 0)); POST(n == 0 || F->_headClient == el[0]);
	REACH;
}
// after addClient the client has that node id; the other clients keep theirs, in their order
void vph_fwd_add()
{
	forwarder(); int x = vp_u8(), y = vp_int(0, NF), at = n; for (int i = 0; i < n; i++) if (c[i] == y) at = i;
	WirelessNodeId* w = id(x); F->addClient(CLIENT(y), w); POST(owner[y] == F); POST(locks == 0);
	if (at < n) v[at] = x;
	El* p = F->_headClient; for (int i = 0; i < n; i++) { if (!p) break; POST(is(p, i)); p = p->_next; }
	if (at < n) POST(p == 0); else { POST(p != 0 && p->_next == 0 && p->_client == CLIENT(y)); POST(p->_wirelessNodeId != 0 && p->_wirelessNodeId != w && p->_wirelessNodeId->_len == 1 && *p->_wirelessNodeId->_nodeId == x); }
	REACH;
}
void vph_fwd_erase()
{
	forwarder(); int y = vp_int(0, NF); F->eraseClient(CLIENT(y)); POST(locks == 0);
	El* p = F->_headClient; for (int i = 0; i < n; i++) if (c[i] != y) { POST(p != 0 && is(p, i)); if (!p) break; p = p->_next; }
	POST(p == 0);
	REACH;
}
void vph_fwdlist()
{
	ForwarderList L; Forwarder* f[NF]; int a[NF], k = vp_int(0, NF);
	for (int i = 0; i < NF; i++) { f[i] = (Forwarder*)calloc(1, sizeof(Forwarder)); a[i] = vp_u16(); f[i]->_sensorNetAddr._portNo = a[i]; f[i]->_sensorNetAddr._IpAddr = 7; if (i < k) { if (i) f[i - 1]->_next = f[i]; else L._head = f[0]; } }
	SensorNetAddress x; x._portNo = vp_u16(); x._IpAddr = vp_int(6, 7); Forwarder* r = 0; for (int i = k - 1; i >= 0; i--) if (x._IpAddr == 7 && x._portNo == a[i]) r = f[i];
	POST(L.getForwarder(&x) == r);
	MQTTSNString s; s.cstring = (char*)"fwd"; Forwarder* g = L.addForwarder(&x, &s);
	POST(g != 0 && g->_next == 0 && g->_headClient == 0 && g->_sensorNetAddr._portNo == x._portNo && g->_sensorNetAddr._IpAddr == x._IpAddr);
	Forwarder* p = L._head; for (int i = 0; i < k; i++) { POST(p == f[i]); if (!p) break; p = p->_next; } POST(p == g);
	POST(L.getForwarder(&x) == (r ? r : g));
	L._head = 0;
	REACH;
}
}
