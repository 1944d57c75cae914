// Contracts of the start of the gateway (C28): Gateway::initialize over the parameters of gateway.conf.
#include "vp.h"
#include <strings.h>
#include "MQTTSNGWDefines.h"
#include "MQTTSNGateway.h"
#include "SensorNetwork.h"
#include "MQTTSNGWAdapterManager.h"
#include "MQTTSNGWClientList.h"
using namespace MQTTSNGW;
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
static Gateway* G; static int started, adapters, lists, nets, rings; static string *dir, *file;
enum { BROKER, PORT, SPORT, CERT, KEY, CAPATH, CAFILE, DCERT, DKEY, LOGIN, PASSWD, NAME, CLIST, TOPICS, RFCOMM, TEXTS, AUTH = TEXTS, PRED, AGGR, FORW, QOSM1, FLAGS, ID = FLAGS, VERSION, INFL, KEEP, MAXC, NKEYS };
static const char KEYS[NKEYS][24] = { "BrokerName", "BrokerPortNo", "BrokerSecurePortNo", "CertKey", "PrivateKey", "RootCApath", "RootCAfile", "DtlsCertsKey", "DtlsPrivKey", "LoginID", "Password", "GatewayName", "ClientsList", "PredefinedTopicList", "RFCOMMAddress",
	"ClientAuthentication", "PredefinedTopic", "AggregatingGateway", "Forwarder", "QoS-1", "GatewayID", "MQTTVersion", "MaxInflightMsgs", "KeepAlive", "MaxNumberOfClients" };
static bool has[NKEYS]; static int val[NKEYS];
int Process::getParam(const char* k, char* v)
{
	POST(this == G && started == 1);
	for (int i = 0; i < NKEYS; i++) if (!strcmp(k, KEYS[i])) { if (!has[i]) return -3; if (i >= TEXTS && i < FLAGS) strcpy(v, val[i] ? "YES" : "NO"); else { v[0] = 'A' + i; v[1] = 0; } return 0; }
	return -3;
}
static bool text(const char* s, int i) { return has[i] ? s != 0 && s[0] == 'A' + i && s[1] == 0 : s == 0; }
extern "C" int atoi(const char* s) noexcept { int i = s[0] - 'A'; POST(i >= ID && i < NKEYS && s[1] == 0); return val[i]; }
void MultiTaskProcess::initialize(int, char**) { POST(this == G && started == 0); started++; }
int MultiTaskProcess::getParam(const char* k, char* v) { return Process::getParam(k, v); }
void Process::resetRingBuffer() { rings++; }
const string* Process::getConfigDirName(void) { return dir; }
const string* Process::getConfigFileName(void) { return file; }
void Process::putLog(const char*, ...) {}
static int inflight() { return has[INFL] ? val[INFL] : MAX_INFLIGHTMESSAGES; }
static int clients() { return has[MAXC] ? val[MAXC] : MAX_CLIENTS; }
static bool flag(int i) { return has[i] && val[i]; }
static void params(const char* when)
{
	GatewayParams* p = G->getGWParams();
	POST(text(p->brokerName, BROKER) && text(p->port, PORT) && text(p->portSecure, SPORT) && text(p->certKey, CERT) && text(p->privateKey, KEY) && text(p->rootCApath, CAPATH) && text(p->rootCAfile, CAFILE) && text(p->gwCertskey, DCERT) && text(p->gwPrivatekey, DKEY));
	POST(text(p->loginId, LOGIN) && text(p->password, PASSWD) && text(p->gatewayName, NAME) && text(p->clientListName, CLIST) && text(p->rfcommAddr, RFCOMM));
	POST(flag(PRED) ? text(p->predefinedTopicFileName, TOPICS) : p->predefinedTopicFileName == 0);
	POST(p->gatewayId == val[ID] && p->mqttVersion == (has[VERSION] ? val[VERSION] : DEFAULT_MQTT_VERSION) && p->maxInflightMsgs == inflight() && p->keepAlive == (has[KEEP] ? val[KEEP] : DEFAULT_KEEP_ALIVE_TIME) && p->maxClients == clients());
	POST(p->clientAuthentication == flag(AUTH) && p->predefinedTopic == flag(PRED) && p->aggregatingGw == flag(AGGR) && p->forwarder == flag(FORW) && p->qosMinus1 == flag(QOSM1));
	POST(G->_packetEventQue._que._maxSize == inflight() * clients());
}
void AdapterManager::initialize(char* n, bool a, bool f, bool q) { POST(this == G->_adapterManager && text(n, NAME) && a == flag(AGGR) && f == flag(FORW) && q == flag(QOSM1) && nets == 0 && lists == 0); params("adapters"); adapters++; }
void ClientList::initialize(bool a) { POST(this == G->_clientList && a == flag(AGGR) && adapters == 1 && nets == 0); params("clients"); lists++; }
void SensorNetwork::initialize(void) { POST(this == &G->_sensorNetwork && lists == 1); nets++; }
Mutex::Mutex() {} Mutex::~Mutex() {} void Mutex::lock() {} void Mutex::unlock() {}
extern "C" {
void vph_conf_init()
{
	G = raw<Gateway>(); dir = new string("d/"); file = new string("f"); G->_adapterManager = raw<AdapterManager>(); G->_clientList = raw<ClientList>();
#ifndef VP_CBMC
	new (&G->_params) GatewayParams;
#endif
	for (int i = 0; i < NKEYS; i++) { has[i] = vp_bool(); val[i] = i >= ID ? vp_int(0, 65535) : vp_int(0, 1); }
	if (vp_bool()) has[ID] = has[NAME] = true; ASSUME(val[VERSION] < 256 && val[INFL] < 32768 && val[MAXC] < 65536); if (!has[ID]) val[ID] = 0; bool thrown = false;
#ifndef VP_CBMC
	if (vp_bool()) val[ID] = vp_int(1, 255);
#endif
	try { G->Gateway::initialize(0, 0); } catch (Exception& e) { thrown = true; }
	if (val[ID] == 0 || val[ID] > 255 || !has[NAME]) { POST(thrown && nets == 0 && lists == 0 && adapters == 0); REACH; }
	else { POST(!thrown && started == 1 && rings == 1 && adapters == 1 && lists == 1 && nets == 1); params("end"); const char* c = G->_params.configName; POST(c && !strcmp(c, "d/f")); REACH; }
}
}
