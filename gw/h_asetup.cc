// Contracts of setting up the adapters (C24): which connections an adapter owns, and who speaks through it.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGateway.h"
#include "SensorNetwork.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWClientList.h"
#include "MQTTSNGWTopic.h"
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWAdapter.h"
#include "MQTTSNGWAdapterManager.h"
#include "MQTTSNGWAggregater.h"
#include "MQTTSNGWQoSm1Proxy.h"
#include "MQTTSNGWProcess.h"
using namespace MQTTSNGW;
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
Mutex::Mutex() {} Mutex::~Mutex() {} void Mutex::lock() {} void Mutex::unlock() {}
Exception::Exception(const char*, const int, const char*, const char*, const int) {} Exception::~Exception() noexcept {} const char* Exception::what() const noexcept { return ""; }
Semaphore::Semaphore(unsigned int) {} Semaphore::~Semaphore() {}
Timer::Timer() {} Timer::~Timer() {} void Timer::start(uint32_t) {} void Timer::stop() {} bool Timer::isTimeup() { return vp_bool(); }
EventQue::EventQue() {} EventQue::~EventQue() {}
SensorNetAddress::SensorNetAddress() {} SensorNetAddress::~SensorNetAddress() {}
char* currentDateTime(void) { return (char*)"t"; }
void Process::putLog(const char*, ...) {}
static Gateway* G; static ClientList* L; static AdapterManager* AM; static Aggregater* AG; static QoSm1Proxy* QP; static ForwarderList* FL;
static bool hasSec;
// ---- the client list: what is asked of it
static int ncr; static struct { Client* c; char name[24]; bool stable, secure; int type; SensorNetAddress* a; } cr[5];
Client* ClientList::createClient(SensorNetAddress* a, MQTTSNString* id, bool stable, bool secure, int type)
{
	POST(this == L); INSIDE(ncr < 5 && id->cstring && strlen(id->cstring) < 24); Client* c = raw<Client>(); c->_clientType = Ctype_Normal; c->_secureNetwork = secure;
	cr[ncr].c = c; strncpy(cr[ncr].name, id->cstring, 23); cr[ncr].a = a; cr[ncr].stable = stable; cr[ncr].secure = secure; cr[ncr].type = type; ncr++; return c;
}
static int nset, setType; static int createdAt; void ClientList::setClientList(int type) { POST(this == L); nset++; setType = type; createdAt = ncr; }
static Client* found; static SensorNetAddress* asked; Client* ClientList::getClient(SensorNetAddress* a) { POST(this == L); asked = a; return found; }
static Network* NW; static bool sec; bool Network::isSecure() { POST(this == NW); return sec; }
static char gn[4]; static int gl;
static void world()
{
	G = raw<Gateway>(); L = raw<ClientList>(); AM = raw<AdapterManager>(); AG = (Aggregater*)calloc(1, sizeof(Aggregater)); QP = (QoSm1Proxy*)calloc(1, sizeof(QoSm1Proxy)); FL = raw<ForwarderList>(); bool b0 = vp_bool(), b1 = vp_bool(), b2 = vp_bool(), b3 = vp_bool(); char* f = (char*)"f"; G->_params.certKey = b0 ? f : 0; G->_params.privateKey = b1 ? f : 0; G->_params.rootCApath = b2 ? f : 0; G->_params.rootCAfile = b3 ? f : 0; hasSec = b0 && b1 && b2 && b3; G->_clientList = L;
	AM->_gateway = G; AM->_aggregater = AG; AM->_qosm1Proxy = QP; AM->_forwarders = FL; ((Adapter*)AG)->_gateway = G; ((Adapter*)QP)->_gateway = G; AG->_gateway = G; QP->_gateway = G;
	gl = vp_int(1, 3); char* s = vp_cstr(gl); for (int i = 0; i < gl; i++) gn[i] = s[i]; gn[gl] = 0;
}
// record i is the client called gateway name + tail
static bool named(int i, const char* tail, int tl) { for (int k = 0; k < gl; k++) if (cr[i].name[k] != gn[k]) return false; for (int k = 0; k <= tl; k++) if (cr[i].name[gl + k] != tail[k]) return false; return true; }
// adapter a owns two stable clients, one for the plain and one for the secure connection
static void owns(Adapter* a, const char* tail, int tl, const char* stail, int type)
{
	int p = -1, s = -1; for (int i = 0; i < ncr; i++) { if (named(i, tail, tl)) p = i; if (named(i, stail, tl + 2)) s = i; }
	POST(p >= 0 && s >= 0); if (p < 0 || s < 0) return; POST(cr[p].stable && !cr[p].secure && cr[s].stable && cr[s].secure && cr[p].a == 0 && cr[s].a == 0 && cr[p].type == TRANSPEARENT_TYPE && cr[s].type == TRANSPEARENT_TYPE);
	POST(a->_client == cr[p].c && a->_clientSecure == cr[s].c); POST(cr[p].c->_clientType == type && cr[s].c->_clientType == type); POST(a->_isSecure == hasSec);
	POST(a->getClient() == cr[p].c && a->getSecureClient() == cr[s].c && a->isSecure() == hasSec); REACH;
}
static void none(Adapter* a) { POST(a->_client == 0 && a->_clientSecure == 0); }
extern "C" {
static bool wag, wfw, wq;
void vph_asetup_ag()
{
	world(); wfw = vp_bool(); AM->initialize(gn, true, wfw, false); POST(ncr == 2); owns(AG, "_Aggregater", 11, "_Aggregater-S", Ctype_Aggregater); POST(AM->isAggregaterActive() && AG->isActive()); none(QP); POST(!QP->isActive()); POST(nset == (wfw ? 1 : 0) && IMP(wfw, setType == FORWARDER_TYPE)); POST(AM->getAggregater() == AG && AM->getQoSm1Proxy() == QP && AM->getForwarderList() == FL);
}
void vph_asetup_qosm1()
{	// the clients of the file are there before the proxy is: their ids are not taken
	world(); AM->initialize(gn, false, false, true); POST(ncr == 2); owns(QP, "_QoS-1", 6, "_QoS-1-S", Ctype_Proxy); POST(!AM->isAggregaterActive() && QP->isActive()); none(AG); POST(!AG->isActive()); POST(nset == 1 && setType == QOSM1PROXY_TYPE);
}
void vph_asetup_both()
{
	world(); AM->initialize(gn, true, false, true); POST(ncr == 4); owns(AG, "_Aggregater", 11, "_Aggregater-S", Ctype_Aggregater); owns(QP, "_QoS-1", 6, "_QoS-1-S", Ctype_Proxy); POST(AM->isAggregaterActive() && QP->isActive()); POST(nset == 1 && setType == QOSM1PROXY_TYPE);
}
void vph_asetup_none()
{
	world(); wfw = vp_bool(); AM->initialize(gn, false, wfw, false); POST(ncr == 0); none(AG); POST(!AG->isActive()); none(QP); POST(!QP->isActive()); POST(nset == (wfw ? 1 : 0) && IMP(wfw, setType == FORWARDER_TYPE)); REACH;
}
void vph_asetup_byaddr()
{	// only a client allowed to publish with QoS -1 is known by its address alone
	world(); SensorNetAddress* a = raw<SensorNetAddress>(); bool any = vp_bool(); Client* c = raw<Client>(); c->_clientType = (ClientType)vp_int(0, Ctype_Aggregater); c->_clientId = (char*)"i"; NW = raw<Network>(); c->_network = NW; sec = vp_bool(); c->_secureNetwork = sec; found = any ? c : 0; bool q = any && c->_clientType == Ctype_QoS_1;
	POST(QP->getClient(a) == (q ? c : 0) && asked == a); POST(QP->getClientId(a) == (q ? c->_clientId : 0)); POST(QP->isSecure(a) == (q && sec)); REACH;
}
void vph_asetup_new()
{	// adapters that were never set up are not active
	world(); AdapterManager* m = new AdapterManager(G); POST(m->_gateway == G && m->_aggregater && m->_qosm1Proxy && m->_forwarders); POST(!m->_aggregater->isActive() && !m->_qosm1Proxy->isActive());POST(!m->isAggregaterActive()); POST(1);
	Adapter *x = m->_aggregater, *y = m->_qosm1Proxy; POST(x->_proxy && x->_proxySecure && x->_proxy != x->_proxySecure && y->_proxy && y->_proxySecure && y->_proxy != y->_proxySecure && x->_proxy->_gateway == G && y->_proxySecure->_gateway == G && x->_gateway == G && y->_gateway == G);
	POST(x->_proxy->_suspendedPacketEventQue && x->_proxy->_suspendedPacketEventQue != x->_proxySecure->_suspendedPacketEventQue); POST(x->_proxy->_retryCnt == 0 && !x->_proxy->_isWaitingResp && y->_proxySecure->_retryCnt == 0); REACH;
}
}
