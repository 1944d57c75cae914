// Contracts of the client list (C23): which client an address or an identifier is, and what a new client is.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGateway.h"
#include "SensorNetwork.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWClientList.h"
#include "MQTTSNGWTopic.h"
#include "MQTTSNGWForwarder.h"
using namespace MQTTSNGW;
#ifndef NCL
#define NCL 3
#endif
static int locks;
Mutex::Mutex() {} Mutex::~Mutex() {}
void Mutex::lock() { POST(locks == 0); locks++; }
void Mutex::unlock() { POST(locks == 1); locks--; }
SensorNetAddress::SensorNetAddress() {} SensorNetAddress::~SensorNetAddress() {}
bool SensorNetAddress::isMatch(SensorNetAddress* a) { return _portNo == a->_portNo && _IpAddr == a->_IpAddr; }
SensorNetAddress& SensorNetAddress::operator=(SensorNetAddress& a) { _portNo = a._portNo; _IpAddr = a._IpAddr; return *this; }
extern "C" int MQTTSNstrlen(MQTTSNString s) { return s.cstring ? (int)strlen(s.cstring) : s.lenstring.len; }
extern "C" void writeMQTTSNString(unsigned char** p, MQTTSNString s) { int n = MQTTSNstrlen(s); for (int i = 0; i < n; i++) (*p)[i] = (s.cstring ? s.cstring : s.lenstring.data)[i]; *p += n; }
static Network* netOf; static bool netSecure; void Network::setSecure(bool s) { netOf = this; netSecure = s; }
static Topics* topicsOf; static int adds; static uint16_t addId; static char addName[8];
Topic* Topics::add(const char* name, uint16_t id) { topicsOf = this; adds++; addId = id; strncpy(addName, name, 7); return 0; }
char* currentDateTime(void) { return (char*)"t"; }
#include "MQTTSNGWProcess.h"
void Process::putLog(const char* f, ...) {}
static Forwarder* fwdOf; static Client* fwdGone; static int fwds; void Forwarder::eraseClient(Client* c) { fwdOf = this; fwdGone = c; fwds++; }
// the destructor of a client (its members have contracts of their own)
extern "C" void _ZN8MQTTSNGW6ClientD1Ev(void*) {} extern "C" void _ZN8MQTTSNGW6ClientD2Ev(void*) {}
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
// ---- a list of n clients with any ids of up to 2 characters and any addresses; a pool of m clients
static ClientList* L; static Gateway* G; static Client* c[NCL]; static Client* pool[2]; static int n, m;
static char* anyid(int hi) { return vp_cstr(vp_int(0, hi)); }
static bool eq(SensorNetAddress* a, SensorNetAddress* b) { return a->_portNo == b->_portNo && a->_IpAddr == b->_IpAddr; }
static void anyaddr(SensorNetAddress* a) { a->_portNo = vp_u16(); a->_IpAddr = (uint32_t)vp_int(0, 0x7fffffff); }
static void list()
{
	G = raw<Gateway>(); G->_topics = raw<Topics>(); L = raw<ClientList>(); L->_gateway = G; L->_clientsPool = raw<ClientsPool>(); L->_authorize = vp_bool(); n = vp_int(0, NCL); m = vp_int(0, 2);
	for (int i = 0; i < NCL; i++) { c[i] = raw<Client>(); c[i]->_clientId = anyid(2); anyaddr(&c[i]->_sensorNetAddr); c[i]->_topics = raw<Topics>(); c[i]->_status = (ClientStatus)vp_int(0, 7); c[i]->_sessionStatus = vp_bool(); c[i]->_hasPredefTopic = vp_bool(); }
	for (int i = 0; i < n; i++) { if (i) { c[i - 1]->_nextClient = c[i]; c[i]->_prevClient = c[i - 1]; } else L->_firstClient = c[0]; L->_endClient = c[i]; }
	L->_clientCnt = n;
	for (int i = 0; i < 2; i++) { pool[i] = raw<Client>(); pool[i]->_network = raw<Network>(); pool[i]->_topics = raw<Topics>(); pool[i]->_status = (ClientStatus)vp_int(0, 7); }
	for (int i = 0; i < m; i++) { if (i) pool[i - 1]->_nextClient = pool[i]; else L->_clientsPool->_firstClient = pool[0]; }
	L->_clientsPool->_clientCnt = m;
}
// the list holds clients a[0..k-1], in order, linked both ways
static void holds(Client** a, int k)
{
	POST(L->_firstClient == (k ? a[0] : 0) && L->_endClient == (k ? a[k - 1] : 0)); POST(L->_clientCnt == k);
	for (int i = 0; i < k; i++) POST(a[i]->_nextClient == (i + 1 < k ? a[i + 1] : 0) && a[i]->_prevClient == (i ? a[i - 1] : 0));
	POST(locks == 0);
}
static void pooled(int from) { int k = m > from ? m - from : 0; POST(L->_clientsPool->_clientCnt == k && L->_clientsPool->_firstClient == (k ? pool[from] : 0)); }
static bool sameid(Client* x, const char* t, int len) { if ((int)strlen(x->_clientId) != len) return false; for (int i = 0; i < len; i++) if (x->_clientId[i] != t[i]) return false; return true; }
static void anystring(MQTTSNString* s, const char** t, int* len)
{
	s->cstring = 0; s->lenstring.data = 0; s->lenstring.len = 0; *len = vp_int(0, 3);
	if (vp_bool()) { s->cstring = vp_cstr(*len); *t = s->cstring; }
	else { s->lenstring.data = (char*)vp_new(*len); s->lenstring.len = *len; *t = s->lenstring.data; for (int i = 0; i < *len; i++) ASSUME((*t)[i] != 0); }
}
static void created(Client* r, SensorNetAddress* a, const char* t, int len, bool stable, bool sec, int type)
{
	Client* all[NCL + 1]; for (int i = 0; i < n; i++) all[i] = c[i];
	if (m == 0) { POST(r == 0); holds(c, n); pooled(0); return; }
	POST(r == pool[0]); all[n] = r; holds(all, n + 1); pooled(1); REACH;
	POST(r->_status == Cstat_Disconnected); if (a) POST(eq(&r->_sensorNetAddr, a)); POST(sameid(r, t, len)); POST(r->_sensorNetype == stable);
	POST(r->_clientType == (type == AGGREGATER_TYPE ? Ctype_Aggregated : type == QOSM1PROXY_TYPE ? Ctype_QoS_1 : Ctype_Normal)); POST(netOf == r->_network && netSecure == sec);
}
extern "C" {
void vph_clist_byaddr()
{
	list(); SensorNetAddress a; anyaddr(&a); Client* r = 0; for (int i = n - 1; i >= 0; i--) if (eq(&c[i]->_sensorNetAddr, &a)) r = c[i];
	POST(L->getClient(&a) == r); POST(L->getClient((SensorNetAddress*)0) == 0); holds(c, n); REACH;
}
void vph_clist_byid()
{
	list(); MQTTSNString s; const char* t; int len; anystring(&s, &t, &len); Client* r = 0; for (int i = n - 1; i >= 0; i--) if (len > 0 && sameid(c[i], t, len)) r = c[i];
	POST(L->getClient(&s) == r); holds(c, n); REACH;
}
void vph_clist_index()
{
	list(); int i = vp_int(0, NCL + 1); POST(L->getClient(i) == (i < n ? c[i] : 0)); POST(L->getClientCount() == n); POST(L->isAuthorized() == L->_authorize); holds(c, n); REACH;
}
void vph_clist_create()
{
	list(); MQTTSNString s; const char* t; int len; anystring(&s, &t, &len); SensorNetAddress b, *a = vp_bool() ? &b : 0; anyaddr(&b); bool st = vp_bool(), sec = vp_bool(); int type = vp_int(0, 3);
	Client* old = 0; for (int i = n - 1; i >= 0; i--) if (a && eq(&c[i]->_sensorNetAddr, a)) old = c[i];
	bool brief = vp_bool(); if (brief) st = sec = false;
	Client* r = brief ? L->createClient(a, &s, type) : L->createClient(a, &s, st, sec, type);
	if (old) { POST(r == old); holds(c, n); pooled(0); REACH; } else created(r, a, t, len, st, sec, type);
}
void vph_clist_predef()
{
	list(); MQTTSNString s; int len = vp_int(0, 3); s.cstring = vp_cstr(len); s.lenstring.data = 0; s.lenstring.len = 0; char* name = anyid(2); std::string tn = name; uint16_t id = vp_u16(); bool ag = vp_bool(), common = len == 1 && s.cstring[0] == '*';
	ASSUME(len > 0);
	Client* old = 0; for (int i = n - 1; i >= 0; i--) if (sameid(c[i], s.cstring, len)) old = c[i];
	Client* r = L->createPredefinedTopic(&s, tn, id, ag);
	if (id == 0) { POST(r == 0 && adds == 0); holds(c, n); return; }
	if (common) { POST(r == 0 && adds == 1 && topicsOf == G->_topics); holds(c, n); REACH; }
	else if (old) { POST(r == old); holds(c, n); pooled(0); REACH; }
	else if (L->_authorize) { POST(r == 0); holds(c, n); pooled(0); }
	else created(r, 0, s.cstring, len, false, false, ag ? AGGREGATER_TYPE : TRANSPEARENT_TYPE);
	if (r) { POST(adds == 1 && topicsOf == r->_topics && r->_hasPredefTopic); REACH; }
	if (adds) POST(addId == id && strcmp(addName, name) == 0); else POST(r == 0);
}
// a client that may be erased: the others stay, in their order
void vph_clist_erase()
{
	list(); ASSUME(n > 0); int k = vp_int(0, NCL - 1); ASSUME(k < n); Forwarder* f = vp_bool() ? raw<Forwarder>() : 0; Client *r = (Client*)operator new(sizeof(Client)), *rest[NCL]; memset((void*)r, 0, sizeof(Client)); r->_clientId = anyid(1); r->_forwarder = f; r->_status = (ClientStatus)vp_int(0, 7); r->_sessionStatus = vp_bool(); r->_hasPredefTopic = vp_bool();
	r->_nextClient = c[k]->_nextClient; r->_prevClient = c[k]->_prevClient; if (k) c[k - 1]->_nextClient = r; else L->_firstClient = r; if (k < n - 1) c[k + 1]->_prevClient = r; else L->_endClient = r; c[k] = r; for (int i = 0, j = 0; i < n; i++) if (i != k) rest[j++] = c[i];
	bool may = !L->_authorize && r->erasable(); L->erase(r); if (!may) { POST(r == c[k]); holds(c, n); return; }
	POST(r == 0); holds(rest, n - 1); POST(f ? fwds == 1 && fwdOf == f && fwdGone == c[k] : fwds == 0); REACH;
}
void vph_clist_pool()
{
	ClientsPool* p = new ClientsPool; POST(p->getClient() == 0); Client *a = raw<Client>(), *b = raw<Client>();
	p->setClient(0); p->setClient(a); p->setClient(b); Client *x = p->getClient(), *y = p->getClient(); POST((x == a && y == b) || (x == b && y == a)); POST(x->_nextClient == 0 && y->_nextClient == 0); POST(p->getClient() == 0); REACH;
}
}
