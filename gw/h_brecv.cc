// Contract of BrokerRecvTask's loop (C21): what arrives from the broker. vp_round() is what holds after each round.
#include "hand.h"
#include <signal.h>
#include <sys/select.h>
#include "MQTTSNGWBrokerRecvTask.h"
extern "C" void vp_round();
#ifndef NC
#define NC 2
#endif
static BrokerRecvTask* T; static Client* c[NC]; static int n, calls[NC], rcs[NC], types[NC], rounds, closes[NC], dead, activity, selected, begun; static MQTTGWPacket* pk[NC]; static bool valid[NC], valid0[NC], ready[NC], stopping; static int fd[NC]; static ClientStatus st0[NC]; static bool asked[NC]; static ClientList* CL; static int cur;
const char* Thread::getTaskName(void) { return "task"; }
int Process::checkSignal(void)
{
#ifndef VP_CBMC
	if (begun) { if (rounds++) return SIGINT; vp_round(); stopping = true; return SIGINT; }
#endif
	begun = 1; return stopping ? SIGINT : 0;
}
void LightIndicator::blueLight(bool) {}
Client* ClientList::getClient(int i) { POST(this == CL); return i == 0 && n ? c[0] : 0; }
static int who(Network* w) { for (int i = 0; i < NC; i++) if (c[i]->_network == w) return i; INSIDE(0); return 0; }
bool Network::isValid() { return valid[who(this)]; }
int Network::getSock() { int i = who(this); POST(valid[i]); return fd[i]; }
void Network::close() { int i = who(this); closes[i]++; valid[i] = false; }
MQTTGWPacket::MQTTGWPacket() {} MQTTGWPacket::~MQTTGWPacket() { dead++; for (int i = 0; i < NC; i++) if (pk[i] == this) pk[i] = 0; }
int MQTTGWPacket::recv(Network* w) { int i = who(this == 0 ? 0 : w); POST(valid[i] && ready[i] && calls[i] == 0 && activity > 0); calls[i]++; pk[i] = this; mqslot(this).type = types[i]; return rcs[i]; }
extern "C" int usleep(useconds_t) { return 0; }
extern "C" int select(int nfd, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{	// the sockets asked for are the connected clients', all of them
	selected++; POST(t != 0 && r != 0);
	for (int i = 0; i < NC; i++) { asked[i] = i < n && valid[i]; if (asked[i]) { POST(fd[i] < nfd && FD_ISSET(fd[i], r)); if (!ready[i]) FD_CLR(fd[i], r); } }
	return activity;
}
static bool known(int t) { return t == CONNACK || t == PUBLISH || (t >= PUBACK && t <= PUBCOMP) || t == SUBACK || t == UNSUBACK || t == PINGRESP; }
extern "C" void vp_round()
{
	int posted = 0, dropped = 0;
	for (int i = 0; i < NC; i++)
	{
		bool got = selected && activity > 0 && i < n && valid0[i] && ready[i]; POST(calls[i] == got);
		if (!got) { POST(closes[i] == 0 && c[i]->_status == st0[i]); continue; }
		bool lost = rcs[i] == 0 || ((rcs[i] == -1 || rcs[i] == -2) && (st0[i] == Cstat_Active || st0[i] == Cstat_Asleep || st0[i] == Cstat_Awake));
		if (lost) { POST(!valid[i] && closes[i] == 1 && c[i]->_status == Cstat_Disconnected); REACH; } else POST(valid[i] && closes[i] == 0 && c[i]->_status == st0[i]);
		if (rcs[i] > 0 && known(types[i])) { POST(nev > posted); Ev* e = posted == 0 ? &ev[0] : posted == 1 ? &ev[1] : &ev[posted]; POST(e->q == &G->_packetEventQue && e->e->_eventType == EtBrokerRecv && e->e->_client == c[i] && e->e->_mqttGWPacket == pk[i] && pk[i]); posted++; REACH; }
		else { POST(pk[i] == 0); dropped++; }
	}
	POST(nev == posted && dead == dropped); REACH;
}
static void run(int k)
{
	G = raw<Gateway>(); T = raw<BrokerRecvTask>(); T->_gateway = G; T->_light = raw<LightIndicator>(); CL = raw<ClientList>(); G->_clientList = CL; n = k; activity = vp_int(-1, NC); stopping = vp_bool();
	for (int i = 0; i < NC; i++)
	{
		c[i] = raw<Client>(); c[i]->_network = raw<Network>(); c[i]->_clientId = (char*)"id"; c[i]->_status = st0[i] = (ClientStatus)vp_int(0, 7); valid[i] = valid0[i] = vp_bool(); ready[i] = vp_bool(); fd[i] = vp_int(3, 1000); rcs[i] = vp_int(-3, 100); types[i] = vp_int(0, 15);
		for (int j = 0; j < i; j++) ASSUME(fd[i] != fd[j]);
	}
	for (int i = 0; i + 1 < n; i++) c[i]->_nextClient = c[i + 1];
	bool s = stopping; T->run(); if (s) POST(nev == 0 && dead == 0 && selected == 0);
}
extern "C" {
void vph_brecv_run0() { run(0); }
void vph_brecv_run1() { run(1); }
void vph_brecv_run2() { run(NC); }
}
