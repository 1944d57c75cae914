// Contracts of the adapters (C24): QoS -1 proxy and aggregater - who speaks to the broker for a client, where a packet for a client goes, how an adapter keeps its connection.
#define OWN_TIMER
#include "hand.h"
#include "MQTTSNGWAdapter.h"
#include "MQTTSNGWClientSendTask.h"
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWEncapsulatedPacket.h"
static Timer *started, *stopped; static int starts; static unsigned ms; static bool keepUp, respUp; static Proxy* PX;
void Timer::start(uint32_t m) { starts++; started = this; ms = m; }
void Timer::stop() { stopped = this; }
bool Timer::isTimeup() { POST(PX && (this == &PX->_keepAliveTimer || this == &PX->_responseTimer)); return this == &PX->_keepAliveTimer ? keepUp : respUp; }
static bool accepted; bool MQTTSNPacket::isAccepted(void) { INSIDE(this == I.p); return accepted; }
int MQTTSNPacket::setCONNECT(MQTTSNPacket_connectData* d) { SET(MQTTSN_CONNECT); o.dur = d->duration; o.name = d->clientID.cstring; o.rc = d->cleansession; o.qos = d->willFlag; return 6; }
int MQTTSNPacket::setPINGREQ(MQTTSNString* s) { SET(MQTTSN_PINGREQ); o.name = s->cstring; return 2; }
static MQTTSNPacket *copied, *copyOf; MQTTSNPacket::MQTTSNPacket(MQTTSNPacket& p) { copied = this; copyOf = &p; }
static bool sec; bool Network::isSecure() { return sec; }
static Client *A, *AS, *Q, *QS; static Proxy *pa, *pas, *pq, *pqs;
static Adapter* agAd() { return (Adapter*)AG; }
static Adapter* qAd() { return (Adapter*)QP; }
static Client* adapter(int type) { Client* c = raw<Client>(); c->_network = raw<Network>(); c->_clientType = (ClientType)type; c->_clientId = (char*)malloc(1); c->_status = (ClientStatus)vp_int(0, 7); return c; }
static Proxy* proxy() { Proxy* p = raw<Proxy>(); p->_gateway = G; p->_suspendedPacketEventQue = raw<EventQue>(); p->_retryCnt = vp_int(0, 5); p->_isWaitingResp = vp_bool(); return p; }
static void adapters()
{
	gateway(); sec = vp_bool(); C->_network = raw<Network>(); AM->_gateway = G; AM->_aggregater = AG; AM->_qosm1Proxy = QP;
	A = adapter(Ctype_Aggregater); AS = adapter(Ctype_Aggregater); Q = adapter(Ctype_Proxy); QS = adapter(Ctype_Proxy); pa = proxy(); pas = proxy(); pq = proxy(); pqs = proxy();
	agAd()->_client = A; agAd()->_clientSecure = AS; qAd()->_client = Q; qAd()->_clientSecure = QS; agAd()->_proxy = pa; agAd()->_proxySecure = pas; qAd()->_proxy = pq; qAd()->_proxySecure = pqs; agAd()->_gateway = qAd()->_gateway = G; agAd()->_isSecure = qAd()->_isSecure = vp_bool();
}
// ---- where packets go
static int unicasts, encaps; static SensorNetAddress *sentTo, *fwdAddr; static Forwarder* F; static WirelessNodeId* W; static int rc_; static MQTTSNPacket* inner;
int MQTTSNPacket::unicast(SensorNetwork* n, SensorNetAddress* a) { POST(this == I.p && n == &G->_sensorNetwork); unicasts++; sentTo = a; return rc_; }
static WirelessNodeId* setTo;
WirelessNodeId::WirelessNodeId() {} WirelessNodeId::~WirelessNodeId() {}
MQTTSNGWEncapsulatedPacket::MQTTSNGWEncapsulatedPacket(MQTTSNPacket* p) { inner = p; } MQTTSNGWEncapsulatedPacket::~MQTTSNGWEncapsulatedPacket() {}
void MQTTSNGWEncapsulatedPacket::setWirelessNodeId(WirelessNodeId* w) { setTo = w; }
int MQTTSNGWEncapsulatedPacket::unicast(SensorNetwork* n, SensorNetAddress* a) { POST(n == &G->_sensorNetwork && inner == I.p && setTo == W); encaps++; sentTo = a; return rc_; }
const char* MQTTSNGWEncapsulatedPacket::getName() { return "e"; }
char* MQTTSNGWEncapsulatedPacket::print(char* b) { b[0] = 0; return b; }
WirelessNodeId* Forwarder::getWirelessNodeId(Client* c) { POST(this == F && c == C); return W; }
SensorNetAddress* Forwarder::getSensorNetAddr(void) { POST(this == F); return fwdAddr; }
const char* Forwarder::getId(void) { return "f"; }
void ClientSendTask::log(Client*, MQTTSNPacket*) {}
// ---- packets that waited for the connection
#ifndef NW
#define NW 2
#endif
static int waiting; static Event* held[NW]; static int taken;
int EventQue::size() { POST(PX && this == PX->_suspendedPacketEventQue); return waiting - taken; }
Event* EventQue::wait() { POST(PX && this == PX->_suspendedPacketEventQue && taken < waiting); return held[taken++]; }
EventQue::EventQue() {} EventQue::~EventQue() {}
extern "C" {
void vph_adp_client()
{
	adapters(); int t = C->_clientType; Client* r = AM->getClient(C);
	Client* want = t == Ctype_QoS_1 ? (sec ? QS : Q) : t == Ctype_Aggregated ? (sec ? AS : A) : C; POST(r == want); NOTHING; REACH;
	// the ping timer of the connection the packet is sent on starts again, no other
	Proxy* p = t == Ctype_QoS_1 || t == Ctype_Proxy ? (sec ? pqs : pq) : t == Ctype_Aggregated || t == Ctype_Aggregater ? (sec ? pas : pa) : 0;
	if (p) { POST(starts == 1 && started == &p->_keepAliveTimer && ms == PROXY_KEEPALIVE_DURATION * 1000U); } else POST(starts == 0);
	bool ag = AM->isAggregatedClient(C); POST(ag == (agActive && t != Ctype_QoS_1 && t != Ctype_Proxy && t != Ctype_Aggregater));
}
void vph_adp_forwarder()
{	// a client of a forwarder stays what it is to the adapters
	adapters(); F = raw<Forwarder>(); int t = C->_clientType; Client* before = AM->getClient(C); bool ag = AM->isAggregatedClient(C); C->setForwarder(vp_bool() ? F : 0);
	POST(AM->getClient(C) == before && AM->isAggregatedClient(C) == ag); if (t != Ctype_Normal) POST(C->_clientType == t); REACH;
}
void vph_adp_unicast()
{
	adapters(); incoming(MQTTSN_CONNACK + vp_int(0, 20)); F = raw<Forwarder>(); W = raw<WirelessNodeId>(); fwdAddr = raw<SensorNetAddress>(); rc_ = vp_int(-1, 100); accepted = false; int t = C->_clientType; bool fw = vp_bool(); C->_forwarder = fw ? F : 0; if (fw) ASSUME(t != Ctype_Proxy && t != Ctype_Aggregater);
	ASSUME(I.type != MQTTSN_CONNACK && I.type != MQTTSN_PINGRESP);
	int r = AM->unicastToClient(C, I.p, raw<ClientSendTask>());
	if (fw) { POST(encaps == 1 && unicasts == 0 && sentTo == fwdAddr && r == rc_); REACH; }
	else if (t == Ctype_Proxy || t == Ctype_Aggregater) { POST(encaps == 0 && unicasts == 0); REACH; }
	else { POST(encaps == 0 && unicasts == 1 && sentTo == &C->_sensorNetAddr && r == rc_); REACH; }
	NOTHING;
}
void vph_adp_answer()
{	// an answer of the broker to an adapter reaches the proxy of the connection it came on
	adapters(); incoming(MQTTSN_CONNACK); accepted = vp_bool(); waiting = vp_int(0, NW); for (int i = 0; i < NW; i++) held[i] = raw<Event>(); bool ag = vp_bool(); C->_clientType = ag ? Ctype_Aggregater : Ctype_Proxy; I.type = vp_bool() ? MQTTSN_PINGRESP : vp_int(0, 0x1d); C->_forwarder = 0;
	Adapter* a = ag ? agAd() : qAd(); bool can = !sec || a->_isSecure; PX = sec ? a->_proxySecure : a->_proxy; int rt = PX->_retryCnt; bool wr = PX->_isWaitingResp;
	AM->unicastToClient(C, I.p, raw<ClientSendTask>()); POST(unicasts == 0 && encaps == 0);
	if (can && I.type == MQTTSN_CONNACK && accepted)
	{	// connected: what was held back goes to the packet task, in order
		POST(taken == waiting && nev == waiting); for (int i = 0; i < NW; i++) if (i < waiting) POST(ev[i].e == held[i] && ev[i].q == &G->_packetEventQue);
		POST(PX->_retryCnt == 0 && stopped == &PX->_responseTimer && starts == 1 && started == &PX->_keepAliveTimer); REACH;
	}
	else if (can && I.type == MQTTSN_PINGRESP) { POST(nev == 0 && taken == 0 && PX->_retryCnt == 0 && !PX->_isWaitingResp && stopped == &PX->_responseTimer && started == &PX->_keepAliveTimer); REACH; }
	else { POST(nev == 0 && taken == 0 && starts == 0 && PX->_retryCnt == rt && PX->_isWaitingResp == wr); REACH; }
}
void vph_adp_check()
{
	adapters(); PX = pa; Client* c = A; keepUp = vp_bool(); respUp = vp_bool(); int st = c->_status, rt = PX->_retryCnt; bool wr = PX->_isWaitingResp;
	PX->checkConnection(c);
	if (st == Cstat_Disconnected || (st == Cstat_Connecting && respUp))
	{
		POST(nev == 1 && ev[0].q == &G->_packetEventQue && ev[0].e->_eventType == EtClientRecv && ev[0].e->_client == c); Sn* o = sn(ev[0].e->_mqttSNPacket); POST(o && o->type == MQTTSN_CONNECT && o->name == c->_clientId && o->dur == PROXY_KEEPALIVE_DURATION && o->qos == 0); REACH;
		POST(c->_status == Cstat_Connecting && starts == 1 && started == &PX->_responseTimer && ms == PROXY_RESPONSE_DURATION * 1000U);
	}
	else if ((st == Cstat_Active && keepUp) || (wr && respUp))
	{
		POST(nev == 1 && ev[0].q == &G->_packetEventQue && ev[0].e->_eventType == EtClientRecv && ev[0].e->_client == c); Sn* o = sn(ev[0].e->_mqttSNPacket); POST(o && o->type == MQTTSN_PINGREQ); REACH;
		POST(PX->_isWaitingResp && PX->_retryCnt == rt + 1 && starts == 2); POST(c->_status == (rt + 1 > PROXY_MAX_RETRY_CNT ? (int)Cstat_Disconnected : st));
	}
	else { NOTHING; POST(c->_status == st && starts == 0 && PX->_retryCnt == rt); REACH; }
}
void vph_adp_checkall()
{	// every connection of an active adapter is looked after
	adapters(); A->_status = AS->_status = Q->_status = QS->_status = Cstat_Disconnected; bool s = agAd()->_isSecure; qAd()->_isSecure = s; AM->checkConnection(); int k = 0;
	POST(nev == (agActive ? 1 + s : 0) + (qpActive ? 1 + s : 0)); if (nev) REACH;
	for (int i = 0; i < nev; i++) { Event* e = ev[i].e; POST(e->_eventType == EtClientRecv && sn(e->_mqttSNPacket)->type == MQTTSN_CONNECT && e->_client->_status == Cstat_Connecting && sn(e->_mqttSNPacket)->name == e->_client->_clientId); if (e->_client == A) k |= 1; if (e->_client == AS) k |= 2; if (e->_client == Q) k |= 4; if (e->_client == QS) k |= 8; }
	POST(k == (agActive ? 1 + 2 * s : 0) + (qpActive ? 4 + 8 * s : 0));
}
void vph_adp_save()
{
	adapters(); incoming(MQTTSN_PUBLISH); bool ag = vp_bool(); Adapter* a = ag ? agAd() : qAd(); a->savePacket(C, I.p); Proxy* p = sec ? a->_proxySecure : a->_proxy;
	POST(nev == 1 && ev[0].q == p->_suspendedPacketEventQue && ev[0].e->_eventType == EtClientRecv && ev[0].e->_client == C && ev[0].e->_mqttSNPacket == copied && copyOf == I.p && copied != I.p); REACH;
}
}
