// The client list (C23) with any number of clients, identifiers of any length: the loops over the list by invariant
// (window.h).
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGateway.h"
#include "SensorNetwork.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWClientList.h"
#include "MQTTSNGWTopic.h"
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWProcess.h"
using namespace MQTTSNGW;
#include "window.h"
static void* vp_block(size_t n) { return malloc(n); }
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
static int locks;
Mutex::Mutex() {} Mutex::~Mutex() {}
void Mutex::lock() { POST(locks == 0); locks++; }
void Mutex::unlock() { POST(locks == 1); locks--; }
SensorNetAddress::SensorNetAddress() {} SensorNetAddress::~SensorNetAddress() {}
bool SensorNetAddress::isMatch(SensorNetAddress* a) { return _portNo == a->_portNo && _IpAddr == a->_IpAddr; }
SensorNetAddress& SensorNetAddress::operator=(SensorNetAddress& a) { _portNo = a._portNo; _IpAddr = a._IpAddr; return *this; }
extern "C" int MQTTSNstrlen(MQTTSNString s) { return s.cstring ? (int)strlen(s.cstring) : s.lenstring.len; }
static unsigned kid;
// by its contract (h_conn.cc, h_clist.cc): the client has that identifier
void Client::setClientId(MQTTSNString s) { if (vp_toklen(kid) == 0) { POST(s.cstring ? s.cstring[0] == 0 : s.lenstring.len == 0); return; } _clientId = (char*)vp_tokbuf(vp_tok(s.cstring ? s.cstring : s.lenstring.data)); }
static Network* netOf; static bool netSecure; void Network::setSecure(bool s) { netOf = this; netSecure = s; }
static Topics* topicsOf; static int adds; static uint16_t addId; static unsigned addName;
Topic* Topics::add(const char* name, uint16_t id) { topicsOf = this; adds++; addId = id; addName = vp_tok(name); return 0; }
char* currentDateTime(void) { return (char*)"t"; }
void Process::putLog(const char* f, ...) {}
// the destructor of a client (its members have contracts of their own)
static Forwarder* fwdOf; static Client* fwdGone; static int fwds; void Forwarder::eraseClient(Client* c) { fwdOf = this; fwdGone = c; fwds++; }
extern "C" void _ZN8MQTTSNGW6ClientD1Ev(void*) {} extern "C" void _ZN8MQTTSNGW6ClientD2Ev(void*) {}
ClientsPool::~ClientsPool() { POST(false); }
static ClientList* L; static Gateway* G; static ClientsPool* P; static SensorNetAddress kaddr; static bool noAddr, noId; static int cnt; static Client *P0, *P1, *gone0;
static void anyaddr(SensorNetAddress* a) { a->_portNo = vp_u16(); a->_IpAddr = (uint32_t)vp_int(0, 0xffff); }
static unsigned long adr(SensorNetAddress* a) { return a->_portNo | (unsigned long)a->_IpAddr << 16; }
static void any(Client* c) { c->_clientId = vp_name(); anyaddr(&c->_sensorNetAddr); c->_topics = raw<Topics>(); c->_hasPredefTopic = vp_bool(); c->_status = (ClientStatus)vp_int(0, 7); c->_sessionStatus = vp_bool(); c->_forwarder = 0; }
static unsigned long key(Client* c) { return adr(&c->_sensorNetAddr) ^ (unsigned long)vp_tok(c->_clientId) << 32; }
static Window<Client, &Client::_nextClient, &Client::_prevClient, true, any, key> W;
static bool isAddr(Client* c) { return adr(&c->_sensorNetAddr) == adr(&kaddr); }
static bool isId(Client* c) { return vp_tok(c->_clientId) == kid; }
extern "C" void vp_loop0__ZN8MQTTSNGW10ClientList9getClientEPNS_16SensorNetAddressE(void** cur, int again) { W.search(cur, again, isAddr); if (!again) noAddr = W.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW10ClientList9getClientEPK12MQTTSNString(void** cur, int again) { W.search(cur, again, isId); if (!again) noId = W.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW10ClientList9getClientEP12MQTTSNString(void** cur, int again) { W.search(cur, again, isId); if (!again) noId = W.all; }
static int want; static bool isNth(Client*) { return W.i == want; }
extern "C" void vp_loop0__ZN8MQTTSNGW10ClientList9getClientEi(void** cur, int* p, int again)
{
	if (again) POST(*p == W.i + 1); else POST(*p == 0);
	if (again) { POST(*cur == W.e && W.i != want); return; }
	POST(*cur == W.first()); W.i = vp_int(0, W.n); W.look(); *cur = W.d; *p = W.i; ASSUME(want < 0 || W.i <= want);
}
extern "C" void vp_wloop0__ZN8MQTTSNGW10ClientListD2Ev(void** cur, int again) { W.wipe(cur, again); }
extern "C" void vp_frame(void*) { POST(false); }
static void list()
{
	G = raw<Gateway>(); G->_topics = raw<Topics>(); L = raw<ClientList>(); L->_gateway = G; P = L->_clientsPool = raw<ClientsPool>(); L->_authorize = vp_bool(); W.any(60000);
	L->_clientCnt = W.n; L->_firstClient = W.first(); L->_endClient = W.last();
	P0 = raw<Client>(); P0->_status = (ClientStatus)vp_int(0, 7); P0->_network = raw<Network>(); P0->_topics = raw<Topics>(); P1 = raw<Client>(); P0->_nextClient = vp_bool() ? P1 : 0; P->_firstClient = vp_bool() ? P0 : 0; cnt = P->_clientCnt = vp_int(0, 60000);
}
static void same(int gone, Client* added) { POST(L->_firstClient == W.first(gone, added) && L->_endClient == (added ? added : W.last(gone)) && L->_clientCnt == W.n - (gone >= 0) + (added != 0) && locks == 0); W.is(gone, added); }
static void pooled(Client* first, int c) { POST(L->_clientsPool == P && P->_firstClient == first && P->_clientCnt == c); }
static MQTTSNString anyname() { MQTTSNString s; char* t = vp_name(); kid = vp_tok(t); s.cstring = 0; s.lenstring.data = 0; s.lenstring.len = 0; if (vp_bool()) s.cstring = t; else { s.lenstring.data = t; s.lenstring.len = vp_toklen(kid); } return s; }
static void created(Client* r, Client* p0, Client* p1, SensorNetAddress* a, bool stable, bool sec, int type)
{
	if (!p0) { POST(r == 0); same(-1, 0); pooled(0, cnt); return; }
	POST(r == p0); same(-1, r); pooled(p1, cnt - 1); REACH;
	POST(r->_status == Cstat_Disconnected); if (a) POST(adr(&r->_sensorNetAddr) == adr(a)); if (vp_toklen(kid)) POST(vp_tok(r->_clientId) == kid); POST(r->_sensorNetype == stable);
	POST(r->_clientType == (type == AGGREGATER_TYPE ? Ctype_Aggregated : type == QOSM1PROXY_TYPE ? Ctype_QoS_1 : Ctype_Normal)); POST(netOf == r->_network && netSecure == sec);
}
extern const char* common_topic;
extern "C" {
void vph_caddr() { list(); anyaddr(&kaddr); Client* r = L->getClient(&kaddr); POST(r == (noAddr ? 0 : W.d) && (noAddr || isAddr(r))); POST(L->getClient((SensorNetAddress*)0) == 0); same(-1, 0); REACH; }
void vph_cid() { list(); MQTTSNString s = anyname(); ASSUME(vp_toklen(kid) > 0); Client* r = L->getClient(&s); POST(r == (noId ? 0 : W.d) && (noId || isId(r))); same(-1, 0); REACH; }
void vph_cnone() { list(); MQTTSNString s = anyname(); ASSUME(vp_toklen(kid) == 0); POST(L->getClient(&s) == 0); same(-1, 0); REACH; }
void vph_cindex() { list(); want = vp_int(-1, 70000); Client* r = L->getClient(want); POST(want < 0 || want >= W.n ? r == 0 : W.i == want && r == W.d); POST(L->getClientCount() == W.n && L->isAuthorized() == L->_authorize); same(-1, 0); REACH; }
void vph_ccreate()
{
	list(); MQTTSNString s = anyname(); SensorNetAddress* a = vp_bool() ? &kaddr : 0; anyaddr(&kaddr); bool st = vp_bool(), sec = vp_bool(), brief = vp_bool(); int type = vp_int(0, 3); if (brief) st = sec = false; noAddr = !a;
	Client *p0 = P->_firstClient, *p1 = p0 ? p0->_nextClient : 0; Client* r = brief ? L->createClient(a, &s, type) : L->createClient(a, &s, st, sec, type);
	if (!noAddr) { POST(W.i < W.n && r == W.d && isAddr(r)); same(-1, 0); pooled(p0, cnt); REACH; } else created(r, p0, p1, a, st, sec, type);
}
void vph_cpredef()
{
	common_topic = vp_name(); list(); MQTTSNString s; s.cstring = vp_name(); s.lenstring.data = 0; s.lenstring.len = 0; kid = vp_tok(s.cstring); ASSUME(vp_toklen(kid) > 0); char* name = vp_name(); unsigned tn = vp_tok(name); std::string str = name; uint16_t id = vp_u16(); bool ag = vp_bool(), common = kid == vp_tok(common_topic);
	Client *p0 = P->_firstClient, *p1 = p0 ? p0->_nextClient : 0; Client* r = L->createPredefinedTopic(&s, str, id, ag);
	if (id == 0) { POST(r == 0 && adds == 0); same(-1, 0); pooled(p0, cnt); return; }
	if (common) { POST(r == 0 && adds == 1 && topicsOf == G->_topics); same(-1, 0); pooled(p0, cnt); REACH; }
	else if (!noId) { POST(W.i < W.n && r == W.d && isId(r)); same(-1, 0); pooled(p0, cnt); REACH; }
	else if (L->_authorize) { POST(r == 0); same(-1, 0); pooled(p0, cnt); }
	else created(r, p0, p1, 0, false, false, ag ? AGGREGATER_TYPE : TRANSPEARENT_TYPE);
	if (r) { POST(adds == 1 && topicsOf == r->_topics && r->_hasPredefTopic); REACH; }
	if (adds) POST(addId == id && addName == tn); else POST(r == 0);
}
// a client that may be erased: the others stay, in their order
void vph_cerase()
{
	list(); ASSUME(W.n > 0 && W.i < W.n); Client *c = W.d, *was = c; Forwarder* f = c->_forwarder = vp_bool() ? raw<Forwarder>() : 0; bool may = !L->_authorize && c->erasable(); L->erase(c);
	if (may) { POST(c == 0 && vp_gone() == was); POST(f ? fwds == 1 && fwdOf == f && fwdGone == was : fwds == 0); same(W.i, 0); REACH; } else { POST(c == was); same(-1, 0); }
}
void vph_cdtor() { list(); L->_clientsPool = 0; L->~ClientList(); POST(W.n == 0 || W.all); POST(locks == 0); REACH; }
void vph_ctake()
{
	list(); Client *p0 = P->_firstClient, *p1 = p0 ? p0->_nextClient : 0; Client* r = P->getClient(); POST(r == p0); pooled(p1, p0 ? cnt - 1 : cnt); if (r) { POST(r->_nextClient == 0); REACH; }
	P->setClient(0); pooled(p1, p0 ? cnt - 1 : cnt); if (r) { P->setClient(r); pooled(r, cnt); POST(r->_nextClient == p1); }
}
}
