// Contracts of the queues between the tasks (C25).  A queue of any length is: its first element, its second, its last; what is between them is never reached.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGateway.h"
#include "SensorNetwork.h"
#include "MQTTSNGWPacket.h"
#include "MQTTGWPacket.h"
#include "MQTTSNGWClient.h"
using namespace MQTTSNGW;
static int locks, sems, waits; static EventQue* Q; static Event* late;
Mutex::Mutex() {} Mutex::~Mutex() {}
void Mutex::lock() { POST(locks == 0); locks++; }
void Mutex::unlock() { POST(locks == 1); locks--; }
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
// ---- any queue of any length: k elements
template<class T> struct Any
{
	Que<T>* q; QueElement<T> *h, *s, *t; int k; T *first, *second, *last; int max;
	static QueElement<T>* el(T* x) { QueElement<T>* e = new QueElement<T>(x); return e; }
	void make(Que<T>* where)
	{
		q = where; k = vp_int(0, 0x7ffffffe); max = vp_int(0, 0x7fffffff); h = s = t = 0; q->_maxSize = max; q->_cnt = k; q->_head = q->_tail = 0;
		if (k == 0) return;
		h = el(raw<T>()); first = last = h->_element; second = 0; t = h;
		if (k > 1) { t = el(raw<T>()); second = last = t->_element; h->_next = t; t->_prev = h; s = t; }
		if (k > 2) { s = el(raw<T>()); second = s->_element; h->_next = s; s->_prev = h; s->_next = (QueElement<T>*)8; t->_prev = (QueElement<T>*)8; if (k == 3) { s->_next = t; t->_prev = s; } }
		q->_head = h; q->_tail = t;
	}
	bool same() { return q->_cnt == k && q->_head == h && q->_tail == t && q->_maxSize == max && IMP(h, h->_element == first && h->_next == (k > 1 ? s : 0)) && IMP(t, t->_next == 0 && t->_element == last); }
	bool full() { return max != 0 && k >= max; }
	// x was appended: everything that was there is there, and x is last
	void appended(T* x)
	{
		POST(q->_cnt == k + 1 && q->_maxSize == max); QueElement<T>* e = q->_tail; POST(e != 0 && e != t && e->_element == x && e->_next == 0);
		if (k == 0) { POST(q->_head == e); REACH; } else { POST(q->_head == h && h->_element == first && t->_next == e && t->_element == last); if (k > 1) POST(h->_next == s && s->_element == second); REACH; }
	}
	// the first element was taken: the second one is first
	void taken() { POST(q->_cnt == k - 1 && q->_maxSize == max); if (k == 1) POST(q->_head == 0 && q->_tail == 0); else { POST(q->_head == s && s->_element == second && q->_tail == t && t->_element == last && t->_next == 0); REACH; } }
};
Semaphore::Semaphore(unsigned int) {} Semaphore::~Semaphore() {}
void Semaphore::post(void) { POST(this == &Q->_sem); sems++; }
static void comes() { if (late) { QueElement<Event>* e = new QueElement<Event>(late); Q->_que._head = Q->_que._tail = e; Q->_que._cnt = 1; } }	// another task posts
void Semaphore::wait(void) { POST(this == &Q->_sem && locks == 0 && Q->_que._cnt == 0); if (waits++ || vp_bool()) comes(); }	// it may also return although nothing came
static unsigned waited; void Semaphore::timedwait(uint16_t m) { POST(this == &Q->_sem && locks == 0 && Q->_que._cnt == 0); waited = m; waits++; comes(); }
// ---- what an event carries
static bool many; static int dead, deadA, deadP, deadG; static Event* gone; static SensorNetAddress* gA; static MQTTSNPacket* gP; static MQTTGWPacket* gG;
MQTTSNPacket::~MQTTSNPacket() { POST(this == gP || many); deadP++; }
MQTTGWPacket::~MQTTGWPacket() { POST(this == gG); deadG++; }
SensorNetAddress::SensorNetAddress() {}
SensorNetAddress::~SensorNetAddress() { POST(this == gA); deadA++; }
extern "C" {
void vph_que_post()
{
	Any<MQTTSNPacket> a; a.make(new Que<MQTTSNPacket>); MQTTSNPacket* x = vp_bool() ? raw<MQTTSNPacket>() : 0; int r = a.q->post(x);
	if (x && !a.full()) { POST(r == a.k + 1); a.appended(x); } else { POST(r == 0 && a.same()); REACH; }
}
void vph_que_pop()
{
	Any<MQTTGWPacket> a; a.make(new Que<MQTTGWPacket>); POST(a.q->front() == (a.k ? a.first : 0) && a.q->size() == a.k && a.same()); a.q->pop(); if (a.k) a.taken(); else { POST(a.same()); REACH; }
}
void vph_que_new() { Que<Event> q; POST(q.size() == 0 && q.front() == 0); int m = vp_int(0, 1000); q.setMaxSize(m); Event* e = raw<Event>(); POST(q.post(e) == 1 && q.front() == e && q._maxSize == m); REACH; q.pop(); }
void vph_que_packet()
{
	PacketQue<MQTTGWPacket>* p = raw<PacketQue<MQTTGWPacket> >(); Any<MQTTGWPacket> a; p->_que = new Que<MQTTGWPacket>; a.make(p->_que); int op = vp_int(0, 2);
	if (op == 0) { POST(p->getPacket() == (a.k ? a.first : 0) && a.same()); REACH; }
	else if (op == 1) { p->pop(); if (a.k) a.taken(); else POST(a.same()); REACH; }
	else { MQTTGWPacket* x = raw<MQTTGWPacket>(); int r = p->post(x); if (a.full()) { POST(r == 0 && a.same()); } else { POST(r != 0); a.appended(x); } }
	POST(locks == 0);
}
#ifndef NQ
#define NQ 3
#endif
void vph_que_clear()
{
	PacketQue<MQTTSNPacket>* p = raw<PacketQue<MQTTSNPacket> >(); Que<MQTTSNPacket>* q = p->_que = new Que<MQTTSNPacket>; int n = vp_int(0, NQ); q->_maxSize = NQ; MQTTSNPacket* x[NQ];
	for (int i = 0; i < n; i++) q->post(x[i] = raw<MQTTSNPacket>());
	many = true; p->clear(); POST(deadP == n && q->size() == 0 && q->front() == 0 && q->_maxSize == NQ && locks == 0); REACH;
}
void vph_que_event_post()
{
	Q = raw<EventQue>(); Any<Event> a; a.make(&Q->_que); Event* e = vp_bool() ? raw<Event>() : 0; if (e) e->_mqttSNPacket = gP = raw<MQTTSNPacket>();
	Q->post(e); POST(locks == 0);
	if (e && !a.full()) { a.appended(e); POST(sems == 1 && deadP == 0); } else { POST(a.same() && sems == 0); POST(deadP == (e != 0)); REACH; }	// an event that finds no room is destroyed
}
void vph_que_event_wait()
{
	Q = raw<EventQue>(); Any<Event> a; a.make(&Q->_que); if (a.k == 0) late = raw<Event>(); Event* e = Q->wait(); POST(locks == 0 && sems == 0);
	if (a.k) { POST(e == a.first && waits == 0); a.taken(); } else { POST(e == late && Q->_que._cnt == 0 && Q->_que._head == 0 && Q->_que._tail == 0); REACH; }
}
void vph_que_event_timed()
{
	Q = raw<EventQue>(); Any<Event> a; a.make(&Q->_que); if (a.k == 0) late = vp_bool() ? raw<Event>() : 0; int m = vp_u16(); Event* e = Q->timedwait(m); POST(locks == 0 && sems == 0 && e != 0);
	if (a.k) { POST(e == a.first && waits == 0); a.taken(); } else { POST(waits == 1 && waited == (unsigned)m && Q->_que._cnt == 0 && Q->_que._head == 0); if (late) POST(e == late); else POST(e->_eventType == EtTimeout && e->_client == 0 && e->_mqttSNPacket == 0 && e->_mqttGWPacket == 0 && e->_sensorNetAddr == 0); REACH; }
}
void vph_que_event_size() { Q = raw<EventQue>(); Any<Event> a; a.make(&Q->_que); POST(Q->size() == a.k && a.same() && locks == 0); int m = vp_u16(); Q->setMaxSize(m); POST(Q->_que._maxSize == m && Q->_que._cnt == a.k); REACH; }
void vph_que_event_free()
{	// an event destroys what it carries, once; the client is not its own
	Event* e = new Event; POST(e->_eventType == Et_NA && e->_client == 0 && e->_mqttSNPacket == 0 && e->_mqttGWPacket == 0 && e->_sensorNetAddr == 0); Client* c = raw<Client>(); int k = vp_int(0, 5);
	MQTTSNPacket* p = raw<MQTTSNPacket>(); MQTTGWPacket* g = raw<MQTTGWPacket>(); SensorNetAddress* s = raw<SensorNetAddress>(); gP = p; gG = g; gA = s;
	if (k == 0) e->setClientSendEvent(c, p); else if (k == 1) e->setBrokerSendEvent(c, g); else if (k == 2) e->setClientRecvEvent(c, p); else if (k == 3) e->setBrokerRecvEvent(c, g); else if (k == 4) e->setBrodcastEvent(p); else e->setClientSendEvent(s, p);
	EventType t[6] = { EtClientSend, EtBrokerSend, EtClientRecv, EtBrokerRecv, EtBroadcast, EtSensornetSend }; bool gw = k == 1 || k == 3;
	POST(e->getEventType() == t[k]); POST(e->getClient() == (k < 4 ? c : 0)); POST(e->getMQTTSNPacket() == (gw ? 0 : p)); POST(e->getMQTTGWPacket() == (gw ? g : 0)); POST(e->getSensorNetAddress() == (k == 5 ? s : 0));
	delete e; POST(deadP == !gw && deadG == gw && deadA == (k == 5)); c->_status = Cstat_Active; REACH;
}
}
