// Contract of ClientRecvTask's loop (C22): who sent a packet, and what becomes of it. vp_round() is what holds after each round.
#include "hand.h"
#include <signal.h>
#include "MQTTSNGWClientRecvTask.h"
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWEncapsulatedPacket.h"
extern "C" void vp_round(); static void arrive();
static ClientRecvTask* T; static SensorNetwork* SNW; static SensorNetAddress from; static int plen, rounds, outerType, innerType, created, added, dead, deadI, deadOuter; static MQTTSNPacket *outer, *inner; static bool stopping;
static Forwarder* F; static bool knownFwd; static Client *byNode, *byAddr, *byId, *proxyClient, *fresh; static const char* proxyName; static ForwarderList* FL; static ClientList* CL; static GatewayParams* GP; static uint8_t* theNode;
static SensorNetAddress addr0; static ClientStatus st0;
const char* Thread::getTaskName(void) { return "task"; }
int Process::checkSignal(void) { return stopping ? SIGINT : 0; }
int MQTTSNPacket::recv(SensorNetwork* n)
{
	POST(n == SNW);
#ifndef VP_CBMC
	if (rounds++) { vp_round(); nev = dead = deadI = deadOuter = created = added = 0; arrive(); if (rounds > 3) stopping = true; }
#endif
	outer = I.p = this; return plen;
}
MQTTSNPacket::~MQTTSNPacket() { dead++; if (this == outer) deadOuter++; if (this == I.p) deadI++; }
unsigned char* MQTTSNPacket::getPacketData(void) { POST(this == outer); return (unsigned char*)theNode; }
int MQTTSNPacket::getPacketLength(void) { POST(this == outer); return plen; }
SensorNetAddress* SensorNetwork::getSenderAddress(void) { return &from; }
SensorNetAddress::SensorNetAddress() {} SensorNetAddress::~SensorNetAddress() {}
SensorNetAddress& SensorNetAddress::operator=(SensorNetAddress& a) { _portNo = a._portNo; _IpAddr = a._IpAddr; return *this; }
char* SensorNetAddress::sprint(char* b) { b[0] = 0; return b; }
static bool same(SensorNetAddress* a) { return a && a->_portNo == from._portNo && a->_IpAddr == from._IpAddr; }
WirelessNodeId::WirelessNodeId() {} WirelessNodeId::~WirelessNodeId() {}
void WirelessNodeId::setId(WirelessNodeId* id) { _nodeId = id->_nodeId; }
MQTTSNGWEncapsulatedPacket::MQTTSNGWEncapsulatedPacket() { _mqttsn = 0; } MQTTSNGWEncapsulatedPacket::~MQTTSNGWEncapsulatedPacket() {}
int MQTTSNGWEncapsulatedPacket::desirialize(unsigned char* b, unsigned short n) { POST(b == theNode && n == plen && deadOuter == 0); _mqttsn = inner; _id._nodeId = theNode; I.p = inner; I.type = innerType; return 5; }
MQTTSNPacket* MQTTSNGWEncapsulatedPacket::getMQTTSNPacket(void) { return _mqttsn; }
WirelessNodeId* MQTTSNGWEncapsulatedPacket::getWirelessNodeId(void) { return &_id; }
ForwarderList* AdapterManager::getForwarderList() { return FL; }
Forwarder* ForwarderList::getForwarder(SensorNetAddress* a) { POST(this == FL && same(a)); return knownFwd ? F : 0; }
const char* Forwarder::getName(void) { return "f"; }
Client* Forwarder::getClient(WirelessNodeId* id) { POST(this == F && id->_nodeId == theNode); return byNode; }
static Client* addedClient;
void Forwarder::addClient(Client* c, WirelessNodeId* id) { POST(this == F && id->_nodeId == theNode); added++; addedClient = c; }
const char* Adapter::getClientId(SensorNetAddress* a) { POST(this == (Adapter*)QP && same(a)); return proxyName; }
Client* Adapter::getClient(void) { POST(this == (Adapter*)QP); return proxyClient; }
Client* ClientList::getClient(SensorNetAddress* a) { POST(this == CL && same(a)); return byAddr; }
Client* ClientList::getClient(MQTTSNString* s) { POST(this == CL && s->lenstring.data == I.name && s->lenstring.len == I.namelen && s->cstring == 0); return byId; }
static bool authorized; bool ClientList::isAuthorized() { return authorized; }
Client* ClientList::createClient(SensorNetAddress* a, MQTTSNString* s, int type)
{
	POST(this == CL && s->lenstring.data == I.name && s->lenstring.len == I.namelen && s->cstring == 0);
	if (outerType == MQTTSN_ENCAPSULATED) POST(a == 0); else POST(same(a));
	POST(type == (agActive ? AGGREGATER_TYPE : TRANSPEARENT_TYPE)); created++; return fresh;
}
void ClientRecvTask::log(Client*, MQTTSNPacket*, MQTTSNString*) {} void ClientRecvTask::log(const char*, MQTTSNPacket*) {}
// ---- one received packet
static bool unchanged(Client* c) { return c == 0 || c->_status == st0; }
static bool kept() { return byId == 0 || (byId->_sensorNetAddr._portNo == addr0._portNo && byId->_sensorNetAddr._IpAddr == addr0._IpAddr); }
static void dropped() { POST(nev == 0); POST(deadI == 1 && created == 0 && added == 0); POST(kept()); }
extern "C" void vp_round()
{
	POST(deadI <= 1 && deadOuter <= 1);
	if (plen < 2 || outerType <= MQTTSN_ADVERTISE || outerType == MQTTSN_GWINFO) { dropped(); REACH; return; }
	if (outerType == MQTTSN_SEARCHGW) { POST(nev == 1 && ev[0].q == &G->_packetEventQue && ev[0].e->_eventType == EtBroadcast && ev[0].e->_mqttSNPacket == outer && dead == 0); REACH; return; }
	bool enc = outerType == MQTTSN_ENCAPSULATED; Client* c; MQTTSNPacket* p = outer;
	if (enc)
	{
		if (!knownFwd) { dropped(); REACH; return; }	// a forwarder that is not declared
		POST(deadOuter == 1); c = byNode; p = inner;
	}
	else if (qpActive && proxyName)
	{
		c = proxyClient; if (!(I.type == MQTTSN_PUBLISH && I.qos == 3)) { dropped(); REACH; return; }	// only PUBLISH with QoS -1
	}
	else c = byAddr;
	if (c)
	{
		bool will = c->_connectData.flags.bits.will && (I.type == MQTTSN_WILLTOPIC || I.type == MQTTSN_WILLMSG);
		if (st0 == Cstat_Disconnected && I.type != MQTTSN_CONNECT && !will)
		{	// the client is told that it is not connected
			POST(nev == 1 && ev[0].q == &G->_clientSendQue && ev[0].e->_eventType == EtClientSend && ev[0].e->_client == c); Sn* o = sn(ev[0].e->_mqttSNPacket); POST(o && o->type == MQTTSN_DISCONNECT && o->dur == 0 && deadI == 1 && dead == 1 + enc); REACH; return;
		}
	}
	else
	{
		if (I.type != MQTTSN_CONNECT || !I.ok) { dropped(); REACH; return; }
		c = byId; bool mayCreate = !authorized;
		POST(created == (byId == 0 && mayCreate)); if (created) c = fresh;
		if (c == 0) { POST(nev == 0 && deadI == 1 && added == 0); REACH; return; }
		POST(added == enc); if (enc) POST(addedClient == c);
		if (!enc && byId) { if (GP->clientAuthentication) POST(kept()); else POST(same(&byId->_sensorNetAddr)); }	// a registered client keeps its address
		REACH;
	}
	POST(nev == 1 && ev[0].q == &G->_packetEventQue && ev[0].e->_eventType == EtClientRecv && ev[0].e->_client == c && ev[0].e->_mqttSNPacket == p); POST(deadI == 0 && dead == enc); POST(unchanged(c)); REACH;
}
static Client* some(bool b) { return b ? C : 0; }
static void arrive()
{
	incoming(vp_bool() ? MQTTSN_CONNECT : vp_int(0, 0x1d)); outerType = I.type = vp_bool() ? MQTTSN_ENCAPSULATED : I.type; innerType = vp_bool() ? MQTTSN_CONNECT : vp_int(0, 0x1d); inner = (MQTTSNPacket*)I.p; plen = vp_int(-1, 1500); stopping = vp_int(0, 7) == 7;
	from._portNo = vp_u16(); from._IpAddr = (uint32_t)vp_int(0, 0x7fffffff); proxyName = vp_bool() ? "qos" : 0; knownFwd = vp_bool();
	st0 = C->_status; C->_connectData.flags.bits.will = vp_bool(); C->_sensorNetAddr._portNo = addr0._portNo = vp_u16(); C->_sensorNetAddr._IpAddr = addr0._IpAddr = (uint32_t)vp_int(0, 0x7fffffff);
	byNode = some(vp_bool()); byAddr = some(vp_bool()); byId = some(vp_bool()); proxyClient = C; fresh = some(vp_bool());
}
extern "C" {
void vph_recv_run()
{
	gateway(); T = raw<ClientRecvTask>(); T->_gateway = G; T->_sensorNetwork = SNW = raw<SensorNetwork>(); theNode = (uint8_t*)malloc(1); authorized = vp_bool();
	F = raw<Forwarder>(); FL = raw<ForwarderList>(); CL = raw<ClientList>(); G->_clientList = CL; GP = &G->_params; GP->clientAuthentication = authorized;
	arrive();
	bool s = stopping; T->run();
	if (s) POST(nev == 0 && dead == 1 && created == 0 && added == 0);
}
}
