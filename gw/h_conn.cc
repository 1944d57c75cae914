// Contracts of MQTTSNConnectionHandler, MQTTGWConnectionHandler and MQTTSNAggregateConnectionHandler (C17).
#define NEV 8
#define EVMORE EV(4) EV(5) EV(6) EV(7)
#include "hand.h"
#include "MQTTSNGWConnectionHandler.h"
#include "MQTTGWConnectionHandler.h"
#include "MQTTSNAggregateConnectionHandler.h"
static int clearedPub, clearedSub, renewed, closed, topicSet, msgSet, waitCount, removed;
void TopicIdMap::clear() { if (this == &C->_waitedPubTopicIdMap) clearedPub++; else { POST(this == &C->_waitedSubTopicIdMap); clearedSub++; } }
void Topics::eraseNormal() { POST(this == TC); renewed++; }
void Network::close() { POST(this == C->_network); closed++; }
// strings kept by the client: h_client.cc
static const char *wTopic = "wt", *wMsg = "wm";
void Client::setWillTopic(MQTTSNString s) { POST(this == C && s.cstring == 0 && s.lenstring.data == I.name && s.lenstring.len == I.namelen); topicSet++; _willTopic = (char*)wTopic; }
void Client::setWillMsg(MQTTSNString s) { POST(this == C && s.cstring == 0 && s.lenstring.data == I.name && s.lenstring.len == I.namelen); msgSet++; _willMsg = (char*)wMsg; }
int MQTTSNPacket::setPINGREQ(MQTTSNString* s) { POST(s != 0); SET(MQTTSN_PINGREQ); return 2; }
uint8_t WaitREGACKPacketList::getCount() { POST(this == &C->_waitREGACKList); return waitCount; }
// messages kept for the client while it sleeps
#ifndef NST
#define NST 3
#endif
#ifndef NTP
#define NTP 3
#endif
static MQTTGWPacket* stored[NST]; static int nst, taken;
MQTTGWPacket* Client::getClientSleepPacket() { POST(this == C); return taken < nst ? stored[taken] : 0; }
void Client::deleteFirstClientSleepPacket() { POST(this == C && taken < nst); taken++; }
static Topic *tp[NTP]; static int ntp;
Topic* Topics::getFirstTopic() { POST(this == TC); return ntp ? tp[0] : 0; }
Topic* Topics::getNextTopic(Topic* t) { for (int i = 0; i < NTP; i++) if (i < ntp && tp[i] == t) return i + 1 < ntp ? tp[i + 1] : 0; POST(false); return 0; }
void Aggregater::removeAggregateTopic(Topic* t, Client* c) { POST(this == AG && c == C && t->_type == MQTTSN_TOPIC_TYPE_NORMAL && renewed == 0); for (int i = 0; i < NTP; i++) if (i < ntp && tp[i] == t) removed |= 1 << i; }
static MQTTSNConnectionHandler* H; static MQTTSNAggregateConnectionHandler* A; static MQTTGWConnectionHandler* B;
static int s0; static Connect cd;
static void common()
{
	H = new MQTTSNConnectionHandler(G); A = new MQTTSNAggregateConnectionHandler(G); B = new MQTTGWConnectionHandler(G);
	GatewayParams& g = G->_params; g.loginId = vp_bool() ? (char*)"user" : 0; g.password = vp_bool() ? (char*)"pass" : 0; g.mqttVersion = vp_int(3, 4); g.gatewayId = vp_u8(); g.keepAlive = vp_u16();
	C->_network = raw<Network>(); C->_waitWillMsgFlg = vp_bool(); C->_holdPingRequest = vp_bool(); waitCount = vp_u8(); s0 = C->_status;
	Connect& c = C->_connectData; c.header.byte = 0; c.header.bits.type = CONNECT; c.flags.all = vp_u8(); c.clientID = C->_clientId; c.willTopic = vp_bool() ? (char*)wTopic : 0; c.keepAliveTimer = vp_u16(); c.version = g.mqttVersion; cd = c;
	nst = vp_int(0, NST); for (int i = 0; i < NST; i++) stored[i] = (MQTTGWPacket*)malloc(1);
}
static void setup(int type) { gateway(); incoming(type); common(); }
static bool sleeping() { return s0 == Cstat_Asleep || s0 == Cstat_Awake; }
// all stored messages go to the packet handler, in their order, from event k on
static void replayed(int k)
{
	POST(taken == nst);
	for (int i = 0; i < NST; i++) if (i < nst) POST(ev[k + i].q == &G->_packetEventQue && ev[k + i].e->_eventType == EtBrokerRecv && ev[k + i].e->_client == C && ev[k + i].e->_mqttGWPacket == stored[i]);
}
static bool connack(int k, int rc) { Sn* o = sn(ev[k].e->_mqttSNPacket); return o && toClient(k, C, o->p) && o->type == MQTTSN_CONNACK && o->rc == rc; }
static void session() { POST(C->_sessionStatus == (I.clean != 0)); POST(clearedPub == I.clean && clearedSub == I.clean && renewed == I.clean); }
static void connect(Mq& q, bool will)
{
	Connect& c = q.cc; POST(q.con != 0); POST(q.user == (unsigned char*)G->_params.loginId && q.pass == (unsigned char*)G->_params.password);
	POST(c.header.bits.type == CONNECT && c.clientID == C->_clientId && c.version == G->_params.mqttVersion); POST(c.flags.bits.will == will);
}
extern "C" {
void vph_conn_connect()
{
	setup(MQTTSN_CONNECT); H->handleConnect(C, I.p);
	if (!I.ok) { NOTHING; return; }
	if (sleeping()) { POST(nev == 1 + nst); POST(connack(0, MQTTSN_RC_ACCEPTED)); replayed(1); POST(renewed == 0); return; }
	session(); POST(taken == 0); if (!C->isAdapter()) POST(C->_status == Cstat_Disconnected && !C->_waitWillMsgFlg);
	const Connect& c = C->_connectData; POST(c.clientID == C->_clientId && c.keepAliveTimer == I.dur && c.version == G->_params.mqttVersion && c.header.bits.type == CONNECT);
	POST(c.flags.bits.will == (I.will != 0) && c.flags.bits.cleanstart == (I.clean != 0) && c.flags.bits.username == (G->_params.loginId != 0) && c.flags.bits.password == (G->_params.password != 0) && c.flags.bits.willQoS == 0 && !c.flags.bits.willRetain && c.willTopic == 0 && c.willMsg == 0);
	if (I.will) { ONE_TO_CLIENT(MQTTSN_WILLTOPICREQ); }
	else { ONE_TO_BROKER(CONNECT); connect(q, false); POST(q.cc.keepAliveTimer == I.dur && q.cc.flags.all == c.flags.all); }
	REACH;
}
void vph_conn_willtopic()
{
	setup(MQTTSN_WILLTOPIC); H->handleWilltopic(C, I.p);
	if (!I.ok) { NOTHING; POST(topicSet == 0); return; }
	ONE_TO_CLIENT(MQTTSN_WILLMSGREQ); POST(topicSet == 1 && C->_waitWillMsgFlg); const Connect& c = C->_connectData;
	POST(c.willTopic == C->_willTopic && c.flags.bits.willQoS == I.qos && c.flags.bits.willRetain == (I.retain != 0)); POST((c.flags.all & ~0x38) == (cd.flags.all & ~0x38)); POST(c.clientID == cd.clientID && c.keepAliveTimer == cd.keepAliveTimer && c.version == cd.version);
	REACH;
}
void vph_conn_willmsg()
{
	setup(MQTTSN_WILLMSG); bool w = C->_waitWillMsgFlg; C->_connectData.flags.bits.will = true; cd = C->_connectData; H->handleWillmsg(C, I.p);
	if (!w || !I.ok || s0 == Cstat_Lost || s0 == Cstat_TryConnecting) { NOTHING; POST(C->_waitWillMsgFlg == w); return; }
	ONE_TO_BROKER(CONNECT); POST(msgSet == 1 && !C->_waitWillMsgFlg); connect(q, true);
	POST(q.cc.willMsg == C->_willMsg && q.cc.willTopic == cd.willTopic && q.cc.flags.all == cd.flags.all && q.cc.keepAliveTimer == cd.keepAliveTimer); REACH;
}
void vph_conn_disconnect()
{
	setup(MQTTSN_DISCONNECT); ASSUME(I.ok); H->handleDisconnect(C, I.p); int k = I.dur == 0 ? 1 : 0; POST(nev == 1 + k);
	if (k) { Mq* q = mq(ev[0].e->_mqttGWPacket); POST(q != 0 && toBroker(0, C, q->p) && q->type == DISCONNECT); }
	Sn* o = sn(ev[k].e->_mqttSNPacket); POST(o != 0 && toClient(k, C, o->p) && o->type == MQTTSN_DISCONNECT && o->dur == 0); REACH;
}
void vph_conn_willupd()
{
	bool t = vp_bool(); setup(t ? MQTTSN_WILLTOPICUPD : MQTTSN_WILLMSGUPD); if (t) H->handleWilltopicupd(C, I.p); else H->handleWillmsgupd(C, I.p);
	ONE_TO_CLIENT(t ? MQTTSN_WILLTOPICRESP : MQTTSN_WILLMSGRESP); POST(o.rc == MQTTSN_RC_NOT_SUPPORTED); REACH;
}
void vph_conn_gateway()
{
	bool a = vp_bool(); setup(a ? MQTTSN_ADVERTISE : vp_bool() ? MQTTSN_SEARCHGW : MQTTSN_CONNECT); if (a) H->sendADVERTISE(); else H->handleSearchgw(I.p);
	if (!a && I.type != MQTTSN_SEARCHGW) { NOTHING; return; }
	POST(nev == 1 && ev[0].q == &G->_clientSendQue && ev[0].e->_eventType == EtBroadcast); Sn* o = sn(ev[0].e->_mqttSNPacket); POST(o != 0); POST(o->type == (a ? MQTTSN_ADVERTISE : MQTTSN_GWINFO) && o->rc == G->_params.gatewayId); if (a) POST(o->dur == G->_params.keepAlive); REACH;
}
// PINGREQ: the stored messages, and then PINGREQ itself again; it goes to the broker unless messages wait for a REGACK
void vph_conn_pingreq()
{
	setup(MQTTSN_PINGREQ); bool held = C->_holdPingRequest; H->handlePingreq(C, I.p);
	if (sleeping() && nst) { POST(nev == nst + 1); replayed(0); Sn* o = sn(ev[nst].e->_mqttSNPacket); POST(o != 0); POST(ev[nst].q == &G->_packetEventQue && ev[nst].e->_eventType == EtClientRecv && ev[nst].e->_client == C && o->type == MQTTSN_PINGREQ); return; }
	POST(taken == 0); if (s0 == Cstat_Awake && !held && waitCount) { NOTHING; POST(C->_holdPingRequest); return; }
	ONE_TO_BROKER(PINGREQ); POST(!C->_holdPingRequest); REACH;
}
// ---- from the broker
void vph_conn_connack()
{
	gateway(); broker(CONNACK); common(); J.rc = vp_int(0, 127); B->handleConnack(C, J.p);
	if (!J.ok) { NOTHING; POST(C->_status == s0); return; }
	ONE_TO_CLIENT(MQTTSN_CONNACK); POST((o.rc == MQTTSN_RC_ACCEPTED) == (J.rc == 0)); if (J.rc == 3) POST(o.rc == MQTTSN_RC_REJECTED_CONGESTED); POST(o.rc >= 0 && o.rc <= 3);
	POST(C->_status == (J.rc == 0 ? Cstat_Active : Cstat_Disconnected)); REACH;
}
void vph_conn_pingresp() { gateway(); broker(PINGRESP); common(); B->handlePingresp(C, J.p); ONE_TO_CLIENT(MQTTSN_PINGRESP); POST(C->_status == (s0 == Cstat_Awake ? Cstat_Asleep : s0)); REACH; }
void vph_conn_lost() { gateway(); broker(DISCONNECT); common(); B->handleDisconnect(C, J.p); ONE_TO_CLIENT(MQTTSN_DISCONNECT); POST(o.dur == 0 && C->_status == Cstat_Disconnected && closed == 1); REACH; }
// ---- aggregated clients: the gateway answers itself
void vph_conn_aggr_connect()
{
	setup(MQTTSN_CONNECT); C->_clientType = Ctype_Aggregated; ntp = vp_int(0, NTP); int normal = 0; for (int i = 0; i < NTP; i++) { tp[i] = raw<Topic>(); tp[i]->_type = (MQTTSN_topicTypes)vp_int(0, 1); if (i < ntp && tp[i]->_type == MQTTSN_TOPIC_TYPE_NORMAL) normal |= 1 << i; }
	A->handleConnect(C, I.p);
	if (!I.ok) { NOTHING; return; }
	if (sleeping()) { POST(nev == 1 + nst); POST(connack(0, MQTTSN_RC_ACCEPTED)); replayed(1); POST(renewed == 0 && removed == 0); return; }
	session(); POST(removed == (I.clean ? normal : 0)); POST(C->_connectData.flags.bits.will == (I.will != 0));
	if (I.will) { POST(C->_status == Cstat_Disconnected && taken == 0); ONE_TO_CLIENT(MQTTSN_WILLTOPICREQ); }
	else { POST(nev == 1 + nst); POST(connack(0, MQTTSN_RC_ACCEPTED)); replayed(1); POST(C->_status == Cstat_Active); }
	REACH;
}
void vph_conn_aggr_willmsg()
{
	setup(MQTTSN_WILLMSG); C->_clientType = Ctype_Aggregated; bool w = C->_waitWillMsgFlg; A->handleWillmsg(C, I.p);
	if (!w || !I.ok || s0 == Cstat_Lost || s0 == Cstat_TryConnecting) { NOTHING; return; }
	POST(nev == 1 + nst); POST(connack(0, MQTTSN_RC_ACCEPTED)); replayed(1); POST(msgSet == 1 && C->_status == Cstat_Active && !C->_waitWillMsgFlg); REACH;
}
void vph_conn_aggr_disconnect() { setup(MQTTSN_DISCONNECT); A->handleDisconnect(C, I.p); ONE_TO_CLIENT(MQTTSN_DISCONNECT); POST(o.dur == 0); REACH; }
void vph_conn_aggr_pingreq()
{
	setup(MQTTSN_PINGREQ); A->handlePingreq(C, I.p); int n = sleeping() ? nst : 0; POST(nev == n + 1); if (n) replayed(0); else POST(taken == 0);
	POST(ev[n].q == &G->_packetEventQue && ev[n].e->_eventType == EtBrokerRecv && ev[n].e->_client == C); Mq* q = mq(ev[n].e->_mqttGWPacket); POST(q != 0 && q->type == PINGRESP); REACH;
}
}
