// Contracts of the tasks' loops (C21): PacketHandleTask, ClientSendTask, BrokerSendTask. vp_round() is what holds after each round.
#include <errno.h>
#include "hand.h"
#include "MQTTSNGWPacketHandleTask.h"
#include "MQTTSNGWClientSendTask.h"
#include "MQTTSNGWBrokerSendTask.h"
#include "MQTTGWConnectionHandler.h"
#include "MQTTGWPublishHandler.h"
#include "MQTTGWSubscribeHandler.h"
#include "MQTTSNGWConnectionHandler.h"
#include "MQTTSNGWPublishHandler.h"
#include "MQTTSNGWSubscribeHandler.h"
#include "MQTTSNAggregateConnectionHandler.h"
// ---- what was done in the round: handlers called, in order of `step`
static int step, called, handler, arg, updated, updatedAt, handledAt, freed, adverts, checks, starts; static Client* hClient; static void* hPacket;
static PacketHandleTask* P; static ClientSendTask* S; static BrokerSendTask* B; static Event* in; static bool done; static EventQue* inQ;
static void call(int h, Client* c, void* p, int a = 0) { called++; handler = h; hClient = c; hPacket = p; arg = a; handledAt = ++step; }
#define SN(cls, m, h) void cls::m(Client* c, MQTTSNPacket* p) { POST((void*)this == (void*)h##_of()); call(__LINE__ * 0 + h, c, p); }
enum { SC = 1, SP, SS, SA, BC, BP, BS };	// the seven handler objects
static void *hnd[8];
static int H_(int o, int m) { return o * 100 + m; }
#define DEF(cls, o, m, n, PK) void cls::m(Client* c, PK* p) { POST(this == hnd[o]); call(H_(o, n), c, p); }
#define DEFA(cls, o, m, n, PK, T) void cls::m(Client* c, PK* p, T t) { POST(this == hnd[o]); call(H_(o, n), c, p, t); }
DEF(MQTTSNConnectionHandler, SC, handleConnect, 1, MQTTSNPacket) DEF(MQTTSNConnectionHandler, SC, handleWilltopic, 2, MQTTSNPacket) DEF(MQTTSNConnectionHandler, SC, handleWillmsg, 3, MQTTSNPacket)
DEF(MQTTSNConnectionHandler, SC, handleDisconnect, 4, MQTTSNPacket) DEF(MQTTSNConnectionHandler, SC, handleWilltopicupd, 5, MQTTSNPacket) DEF(MQTTSNConnectionHandler, SC, handleWillmsgupd, 6, MQTTSNPacket) DEF(MQTTSNConnectionHandler, SC, handlePingreq, 7, MQTTSNPacket)
void MQTTSNConnectionHandler::handleSearchgw(MQTTSNPacket* p) { POST(this == hnd[SC]); call(H_(SC, 8), 0, p); }
void MQTTSNConnectionHandler::sendADVERTISE() { POST(this == hnd[SC]); adverts++; }
DEF(MQTTSNAggregateConnectionHandler, SA, handleConnect, 1, MQTTSNPacket) DEF(MQTTSNAggregateConnectionHandler, SA, handleWillmsg, 3, MQTTSNPacket) DEF(MQTTSNAggregateConnectionHandler, SA, handleDisconnect, 4, MQTTSNPacket) DEF(MQTTSNAggregateConnectionHandler, SA, handlePingreq, 7, MQTTSNPacket)
MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* c, MQTTSNPacket* p) { POST(this == hnd[SP]); call(H_(SP, 1), c, p); return 0; }
DEF(MQTTSNPublishHandler, SP, handleAggregatePublish, 2, MQTTSNPacket) DEF(MQTTSNPublishHandler, SP, handlePuback, 3, MQTTSNPacket) DEF(MQTTSNPublishHandler, SP, handleRegister, 4, MQTTSNPacket) DEF(MQTTSNPublishHandler, SP, handleRegAck, 5, MQTTSNPacket)
DEFA(MQTTSNPublishHandler, SP, handleAck, 6, MQTTSNPacket, uint8_t) DEFA(MQTTSNPublishHandler, SP, handleAggregateAck, 7, MQTTSNPacket, int)
MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* c, MQTTSNPacket* p) { POST(this == hnd[SS]); call(H_(SS, 1), c, p); return 0; }
MQTTGWPacket* MQTTSNSubscribeHandler::handleUnsubscribe(Client* c, MQTTSNPacket* p) { POST(this == hnd[SS]); call(H_(SS, 2), c, p); return 0; }
DEF(MQTTSNSubscribeHandler, SS, handleAggregateSubscribe, 3, MQTTSNPacket) DEF(MQTTSNSubscribeHandler, SS, handleAggregateUnsubscribe, 4, MQTTSNPacket)
DEF(MQTTGWConnectionHandler, BC, handleConnack, 1, MQTTGWPacket) DEF(MQTTGWConnectionHandler, BC, handlePingresp, 2, MQTTGWPacket) DEF(MQTTGWConnectionHandler, BC, handleDisconnect, 3, MQTTGWPacket)
DEF(MQTTGWPublishHandler, BP, handlePublish, 1, MQTTGWPacket) DEF(MQTTGWPublishHandler, BP, handlePuback, 2, MQTTGWPacket) DEFA(MQTTGWPublishHandler, BP, handleAck, 3, MQTTGWPacket, int)
DEF(MQTTGWPublishHandler, BP, handleAggregatePublish, 4, MQTTGWPacket) DEF(MQTTGWPublishHandler, BP, handleAggregatePuback, 5, MQTTGWPacket) DEFA(MQTTGWPublishHandler, BP, handleAggregateAck, 6, MQTTGWPacket, int) DEF(MQTTGWPublishHandler, BP, handleAggregatePubrel, 7, MQTTGWPacket)
DEF(MQTTGWSubscribeHandler, BS, handleSuback, 1, MQTTGWPacket) DEF(MQTTGWSubscribeHandler, BS, handleUnsuback, 2, MQTTGWPacket) DEF(MQTTGWSubscribeHandler, BS, handleAggregateSuback, 3, MQTTGWPacket) DEF(MQTTGWSubscribeHandler, BS, handleAggregateUnsuback, 4, MQTTGWPacket)
void Client::updateStatus(MQTTSNPacket* p) { POST(this == C && p == I.p); updated++; updatedAt = ++step; }
void AdapterManager::checkConnection() { POST(this == AM); checks++; }
static bool aggregated; bool AdapterManager::isAggregatedClient(Client* c) { POST(this == AM && c == C); return aggregated; }
Event::~Event() { POST(this == in); freed++; }
// ---- the events: any one, then the gateway stops
static Event* stop() { Event* e = new Event; e->_eventType = EtStop; return e; }
static Event* next(EventQue* q) { POST(q == inQ); if (done) { in = stop(); freed--; return in; } done = true; return in; }
Event* EventQue::wait() { return next(this); }
Event* EventQue::timedwait(uint16_t) { return next(this); }
static void (*after)(); static int c0, s0;
extern "C" void vp_round() { if (after) after(); }
static void begin(int lo, int hi, EventQue* q)
{
	inQ = q; in = new Event; in->_eventType = (EventType)vp_int(lo, hi);
}
#define HN(i) hnd[i] = malloc(1);
// ---- PacketHandleTask
static void expect(int h, int a = -1)
{
	if (h == 0) { POST(called == 0); return; }
	POST(called == 1 && handler == h); if (a >= 0) POST(arg == a);
}
static void from_client()
{
	int t = I.type; bool a = aggregated;
	switch (t)
	{
	case MQTTSN_CONNECT: expect(a ? H_(SA, 1) : H_(SC, 1)); break;
	case MQTTSN_WILLTOPIC: expect(H_(SC, 2)); break;
	case MQTTSN_WILLMSG: expect(a ? H_(SA, 3) : H_(SC, 3)); break;
	case MQTTSN_DISCONNECT: expect(a ? H_(SA, 4) : H_(SC, 4)); break;
	case MQTTSN_WILLTOPICUPD: expect(H_(SC, 5)); break;
	case MQTTSN_WILLMSGUPD: expect(H_(SC, 6)); break;
	case MQTTSN_PINGREQ: expect(a ? H_(SA, 7) : H_(SC, 7)); break;
	case MQTTSN_PUBLISH: expect(a ? H_(SP, 2) : H_(SP, 1)); break;
	case MQTTSN_PUBACK: if (a) { if (called) expect(H_(SP, 7), t); } else expect(H_(SP, 3)); break;	// an aggregated client's PUBACK needs no answer
	case MQTTSN_PUBREC: if (a) expect(H_(SP, 7), t); else expect(H_(SP, 6), PUBREC); break;
	case MQTTSN_PUBREL: if (a) expect(H_(SP, 7), t); else expect(H_(SP, 6), PUBREL); break;
	case MQTTSN_PUBCOMP: if (a) { if (called) expect(H_(SP, 7), t); } else expect(H_(SP, 6), PUBCOMP); break;
	case MQTTSN_REGISTER: expect(H_(SP, 4)); break;
	case MQTTSN_REGACK: expect(H_(SP, 5)); break;
	case MQTTSN_SUBSCRIBE: expect(a ? H_(SS, 3) : H_(SS, 1)); break;
	case MQTTSN_UNSUBSCRIBE: expect(a ? H_(SS, 4) : H_(SS, 2)); break;
	default: expect(0);
	}
	if (called) POST(hClient == C && hPacket == I.p);
	POST(updated == 1 && (called == 0 || updatedAt > handledAt)); POST(C->_status == s0);
}
static void from_broker()
{
	bool a = c0 == Ctype_Aggregater;
	switch (J.type)
	{
	case CONNACK: expect(H_(BC, 1)); break;
	case PINGRESP: expect(H_(BC, 2)); break;
	case PUBLISH: expect(a ? H_(BP, 4) : H_(BP, 1)); break;
	case PUBACK: expect(a ? H_(BP, 5) : H_(BP, 2)); break;
	case PUBREC: case PUBCOMP: expect(a ? H_(BP, 6) : H_(BP, 3), J.type); break;
	case PUBREL: if (a) expect(H_(BP, 7)); else expect(H_(BP, 3), PUBREL); break;
	case SUBACK: expect(a ? H_(BS, 3) : H_(BS, 1)); break;
	case UNSUBACK: expect(a ? H_(BS, 4) : H_(BS, 2)); break;
	case DISCONNECT: if (called == 0) POST(C->_status == Cstat_Disconnected); else expect(H_(BC, 3)); break;	// the connection to the broker is lost
	default: expect(0);
	}
	if (called) POST(hClient == C && hPacket == J.p);
	POST(updated == 0); if (J.type != DISCONNECT) POST(C->_status == s0);
}
static int te;
const char* Thread::getTaskName(void) { return "task"; }
static void handled()
{
	POST(freed == 1); POST(nev == 0);
	if (te == EtClientRecv) { from_client(); REACH; } else if (te == EtBrokerRecv) { from_broker(); REACH; }
	else { expect(te == EtBroadcast ? H_(SC, 8) : 0); POST(updated == 0 && C->_status == s0); if (te == EtBroadcast) POST(hPacket == I.p); }
	if (te == EtTimeout) { POST(checks == 1 && adverts <= 1); } else POST(checks == 0 && adverts == 0);
}
extern "C" {
void vph_task_handle()
{
	gateway(); incoming(vp_int(0, 0x1d)); broker(vp_int(0, 15)); HN(1) HN(2) HN(3) HN(4) HN(5) HN(6) HN(7) P = raw<PacketHandleTask>(); P->_gateway = G; aggregated = vp_bool(); c0 = C->_clientType; s0 = C->_status;
	P->_mqttsnConnection = (MQTTSNConnectionHandler*)hnd[SC]; P->_mqttsnPublish = (MQTTSNPublishHandler*)hnd[SP]; P->_mqttsnSubscribe = (MQTTSNSubscribeHandler*)hnd[SS]; P->_mqttsnAggrConnection = (MQTTSNAggregateConnectionHandler*)hnd[SA];
	P->_mqttConnection = (MQTTGWConnectionHandler*)hnd[BC]; P->_mqttPublish = (MQTTGWPublishHandler*)hnd[BP]; P->_mqttSubscribe = (MQTTGWSubscribeHandler*)hnd[BS];
	begin(EtStop, EtSensornetSend, &G->_packetEventQue); te = in->_eventType; ASSUME(te == EtStop || te == EtTimeout || te == EtBroadcast || te == EtClientRecv || te == EtBrokerRecv);
	if (te == EtClientRecv || te == EtBroadcast) in->_mqttSNPacket = I.p; if (te == EtBrokerRecv) in->_mqttGWPacket = J.p; if (te == EtClientRecv || te == EtBrokerRecv) in->_client = C;
	after = handled; P->run();
#ifndef VP_CBMC
	if (te != EtStop) handled();
#endif
	if (te == EtStop) POST(called == 0 && freed == 1);
}
}
// ---- ClientSendTask: a packet goes once to where the event says
static int sends, sentRc; static char sent; static SensorNetAddress *to, *theAddr; static SensorNetwork* theNet;
int MQTTSNPacket::broadcast(SensorNetwork* n) { POST(this == I.p && n == theNet && freed == 0); sends++; sent = 'b'; return sentRc; }
int MQTTSNPacket::unicast(SensorNetwork* n, SensorNetAddress* a) { POST(this == I.p && n == theNet && freed == 0); sends++; sent = 'u'; to = a; return sentRc; }
int AdapterManager::unicastToClient(Client* c, MQTTSNPacket* p, ClientSendTask* t) { POST(this == AM && c == C && p == I.p && t == S && freed == 0); sends++; sent = 'c'; return sentRc; }
static void sentOne()
{
	POST(freed == 1); POST(nev == 0); POST(C->_status == s0);
	POST(sends == (te == EtBroadcast || te == EtClientSend || te == EtSensornetSend));
	if (te == EtBroadcast) { POST(sent == 'b'); REACH; }
	if (te == EtClientSend) { POST(sent == 'c'); REACH; }
	if (te == EtSensornetSend) { POST(sent == 'u' && to == theAddr); REACH; }
}
// ---- BrokerSendTask
static Client* M; static Network* N; static GatewayParams* GP; static bool valid0, valid, secure, canConnect; static int closes, connects, connectedAt, closedAt, sentAt, wrote;
Client* AdapterManager::getClient(Client* c) { POST(this == AM && c == C); return M; }
bool Network::isValid() { POST(this == N); return valid; }
bool Network::isSecure() { POST(this == N); return secure; }
void Network::close() { POST(this == N); closes++; valid = false; closedAt = ++step; }
static bool open_() { POST(!valid); connects++; connectedAt = ++step; valid = canConnect; return canConnect; }
bool Network::connect(const char* h, const char* p) { POST(this == N && !secure && h == GP->brokerName && p == GP->port); return open_(); }
bool Network::connect(const char* h, const char* p, const char* ca, const char* cf, const char* ce, const char* k) { POST(this == N && secure && h == GP->brokerName && p == GP->portSecure && ca == GP->rootCApath && cf == GP->rootCAfile && ce == GP->certKey && k == GP->privateKey); return open_(); }
int MQTTGWPacket::send(Network* n) { POST(this == J.p && n == N && valid && freed == 0); sends++; sentAt = ++step; if (sentRc <= 0) errno = vp_int(1, 200); wrote = errno; return sentRc; }
void LightIndicator::blueLight(bool) {}
static void sentToBroker()
{
	int t = J.type; POST(freed == 1);
	if (te != EtBrokerSend) { POST(sends + closes + connects + nev == 0); POST(M->_status == s0); return; }
	bool fresh = t == CONNECT || !valid0;	// CONNECT begins a new connection
	POST(connects == fresh);
	if (t == CONNECT && valid0) POST(closes > 0);	// the old connection is closed before
	if (fresh && !canConnect) { POST(sends == 0 && nev == 0 && !valid && M->_status == s0); REACH; return; }
	POST(sends == 1 && (!fresh || connectedAt < sentAt));
	if (sentRc > 0)
	{
		POST(nev == 0);
		POST(M->_status == (t == CONNECT ? Cstat_Connecting : t == DISCONNECT ? Cstat_Disconnected : s0)); REACH;
		POST(valid == (t != DISCONNECT)); if (t == DISCONNECT) POST(closedAt > sentAt);
	}
	else
	{	// the packet task is told that the connection of this client is lost, once
		POST(nev == 1 && ev[0].e->_mqttGWPacket != J.p); POST(nev == 1 && ev[0].q == &G->_packetEventQue && ev[0].e->_eventType == EtBrokerRecv && ev[0].e->_client == M && mq(ev[0].e->_mqttGWPacket) && mq(ev[0].e->_mqttGWPacket)->type == DISCONNECT); REACH;
		POST(M->_status == s0); if (wrote != EBADF) POST(!valid);
	}
}
extern "C" {
void vph_task_clientsend()
{
	gateway(); incoming(vp_int(0, 0x1d)); S = raw<ClientSendTask>(); S->_gateway = G; theNet = S->_sensorNetwork = raw<SensorNetwork>(); theAddr = raw<SensorNetAddress>(); s0 = C->_status; sentRc = vp_int(-1, 100); G->_stopFlg = vp_bool();
	begin(EtStop, EtSensornetSend + 2, &G->_clientSendQue); te = in->_eventType; in->_mqttSNPacket = I.p; in->_client = C; in->_sensorNetAddr = theAddr; bool s = G->_stopFlg;
	after = sentOne; S->run();
#ifndef VP_CBMC
	if (te != EtStop && !s) sentOne();
#endif
	if (te == EtStop || s) POST(sends == 0 && freed == 1);
}
void vph_task_brokersend()
{
	gateway(); broker(vp_int(0, 15)); B = raw<BrokerSendTask>(); B->_gateway = G; B->_gwparams = GP = raw<GatewayParams>(); B->_light = raw<LightIndicator>();
	GP->brokerName = (char*)malloc(1); GP->port = (char*)malloc(1); GP->portSecure = (char*)malloc(1); GP->rootCApath = (char*)malloc(1); GP->rootCAfile = (char*)malloc(1); GP->certKey = (char*)malloc(1); GP->privateKey = (char*)malloc(1);
	M = vp_bool() ? C : raw<Client>(); N = raw<Network>(); M->_network = N; M->_status = (ClientStatus)vp_int(0, 7); s0 = M->_status; valid = valid0 = vp_bool(); secure = vp_bool(); canConnect = vp_bool(); sentRc = vp_int(-1, 100);
	begin(EtStop, EtSensornetSend, &G->_brokerSendQue); te = in->_eventType; in->_mqttGWPacket = J.p; in->_client = C;
	after = sentToBroker; B->run();
#ifndef VP_CBMC
	if (te != EtStop) sentToBroker();
#endif
	if (te == EtStop) POST(sends + closes + connects + nev == 0 && freed == 1);
}
}
