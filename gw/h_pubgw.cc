// Contracts of MQTTGWPublishHandler (C15): messages and acknowledgements from the broker.
#include "hand.h"
#include "MQTTGWPublishHandler.h"
static Topic *known, *wild, *added; static int saves, adds, waits, waitId, erases; static MQTTGWPacket* saved; static MQTTSNPacket* waitP; static TopicIdMapElement* pending;
static Topic* topic(int type, int id) { Topic* t = new Topic; t->_type = (MQTTSN_topicTypes)type; t->_topicId = id; t->_topicName = new std::string(vp_name()); return t; }
static bool ours(const MQTTSN_topicid* t) { return text_is(t->data.long_.name, t->data.long_.len, J.topic); }
Topic* Topics::getTopicByName(const MQTTSN_topicid* t) { POST(this == TC && ours(t)); return known; }
Topic* Topics::match(const MQTTSN_topicid* t) { POST(this == TC && t->type == MQTTSN_TOPIC_TYPE_NORMAL && ours(t)); return wild; }
Topic* Topics::add(const MQTTSN_topicid* t) { POST(this == TC && t->type == MQTTSN_TOPIC_TYPE_NORMAL && ours(t)); adds++; return added; }
int Client::setClientSleepPacket(MQTTGWPacket* p) { POST(this == C); saves++; saved = p; return vp_int(0, 1); }
int WaitREGACKPacketList::setPacket(MQTTSNPacket* p, uint16_t id) { POST(this == &C->_waitREGACKList); waits++; waitP = p; waitId = id; return 1; }
TopicIdMapElement* TopicIdMap::getElement(uint16_t m) { POST(this == &C->_waitedPubTopicIdMap && m == J.msgid); return pending; }
void TopicIdMap::erase(uint16_t m) { POST(this == &C->_waitedPubTopicIdMap && m == J.msgid); erases++; }
static bool owned; static int origId, released;
static Client* owner(uint16_t m, uint16_t* c, bool erase) { POST(m == origId); if (erase) released++; *c = owned ? J.rc + 1 : 0; return owned ? C : 0; }
Client* AdapterManager::convertClient(uint16_t m, uint16_t* c, bool erase) { return owner(m, c, erase); }
Client* Aggregater::convertClient(uint16_t m, uint16_t* c, bool erase) { return owner(m, c, erase); }
// the filters of the aggregated clients: M of them, each with one or two clients; which of them match is arbitrary
#ifdef VP_WIDE
#define M 7
#else
#define M 3
#endif
static AggregateTopicElement* filter[M]; static bool matches[M];
bool Topic::isMatch(std::string* n) { POST(text_is(n->data(), n->length(), J.topic)); 
#ifdef VP_WIDE
	for (int i = 0; i < M; i++) if (filter[i]->_topic == this) return matches[i];
#endif
	INSIDE(this == filter[0]->_topic || this == filter[1]->_topic || this == filter[2]->_topic); return this == filter[0]->_topic ? matches[0] : this == filter[1]->_topic ? matches[1] : matches[2]; }
static MQTTGWPublishHandler* H;
static void setup(int type) { gateway(); broker(type); H = new MQTTGWPublishHandler(G); origId = J.msgid; }
// an acknowledgement of the message goes to the broker, if its QoS asks for one; for a client of the aggregater that has been sent already
static void acked() { if (J.qos == 0 || C->_clientType == Ctype_Aggregated) NOTHING; else { ONE_TO_BROKER(J.qos == 1 ? PUBACK : PUBREC); POST(q.msgid == J.msgid); } }
static void is_publish(Sn& o, int type, int id)
{
	POST(o.type == MQTTSN_PUBLISH && o.dup == J.dup && o.qos == J.qos && o.retain == J.retain); if (J.qos) POST(o.msgid == J.msgid);
	POST(o.ttype == type && o.tid == id); POST(o.payload == (unsigned char*)J.payload && o.len == J.len);
}
static Client* pool[M + 1]; static int acks, got[4];
static void seen(int i)
{
	if (i >= nev) return;
	Event* e = ev[i].e; Mq* q = mq(e->_mqttGWPacket); POST(q != 0); if (!q) return;
	if (e->_eventType == EtBrokerSend) { acks++; POST(toBroker(i, C, q->p) && q->type == (J.qos == 1 ? PUBACK : PUBREC) && q->msgid == J.msgid); return; }
	POST(ev[i].q == &G->_packetEventQue && e->_eventType == EtBrokerRecv && q->type == PUBLISH && q->copyof == J.p);
	bool a = e->_client == pool[0], b = e->_client == pool[1], c = e->_client == pool[2], d = e->_client == pool[3]; POST(a || b || c || d); got[0] += a; got[1] += b; got[2] += c; got[3] += d;
	if (i > 0) POST(q->p != ev[0].e->_mqttGWPacket); if (i > 1) POST(q->p != ev[1].e->_mqttGWPacket); if (i > 2) POST(q->p != ev[2].e->_mqttGWPacket);
}
extern "C" {
void vph_gw_publish_in()
{
	setup(PUBLISH); int s = C->_status, id = vp_int(1, 0xfffe), sn0 = C->_snMsgId; if (!J.qos) J.msgid = vp_int(0, 0);
	known = vp_bool() ? topic(vp_int(0, 1) ? MQTTSN_TOPIC_TYPE_NORMAL : MQTTSN_TOPIC_TYPE_PREDEFINED, vp_u16()) : 0; wild = vp_bool() ? topic(0, 0) : 0; added = vp_bool() ? topic(MQTTSN_TOPIC_TYPE_NORMAL, id) : 0;
	H->handlePublish(C, J.p);
	if ((s != Cstat_Active && s != Cstat_Asleep && s != Cstat_Awake) || !J.ok) { NOTHING; POST(saves == 0 && waits == 0 && adds == 0); return; }
	if (s == Cstat_Asleep) { acked(); POST(waits == 0 && adds == 0); POST(saves == 1 && mq(saved) != 0 && mq(saved)->copyof == J.p); return; }
	POST(saves == 0);
	if (J.len > MQTTSNGW_MAX_PACKET_SIZE) { NOTHING; POST(waits == 0); return; }
	if (J.topiclen == 2) { ONE_TO_CLIENT(MQTTSN_PUBLISH); is_publish(o, MQTTSN_TOPIC_TYPE_SHORT, (unsigned char)J.topic[0] * 256 + (unsigned char)J.topic[1]); POST(waits == 0); return; }
	if (known) { ONE_TO_CLIENT(MQTTSN_PUBLISH); is_publish(o, known->_type, known->_topicId); POST(waits == 0 && adds == 0); REACH; return; }
	if (!wild && C->_sessionStatus) { acked(); POST(waits == 0 && adds == 0); return; }
	POST(adds == 1);
	if (!added) { NOTHING; POST(waits == 0); return; }
	ONE_TO_CLIENT(MQTTSN_REGISTER); POST(o.tid == id && text_is(o.name, o.namelen, J.topic)); POST(o.msgid != 0 && (sn0 == o.msgid - 1 || o.msgid == 1));
	POST(waits == 1 && waitId == o.msgid && sn(waitP) != 0); is_publish(*sn(waitP), MQTTSN_TOPIC_TYPE_NORMAL, id);
	REACH;
}
void vph_gw_puback_in()
{
	setup(PUBACK); int tid = vp_u16(); if (vp_bool()) { MQTTSN_topicid t; t.type = MQTTSN_TOPIC_TYPE_PREDEFINED; t.data.id = tid; pending = new TopicIdMapElement(J.msgid, tid, &t); }
	H->handlePuback(C, J.p);
	if (J.ok && pending) { ONE_TO_CLIENT(MQTTSN_PUBACK); POST(o.tid == tid && o.msgid == J.msgid && o.rc == MQTTSN_RC_ACCEPTED); POST(erases == 1); REACH; } else { NOTHING; POST(erases == 0); }
}
static void ack_expect(int k)
{
	int s = C->_status;
	if (J.ok && (s == Cstat_Active || s == Cstat_Awake)) { ONE_TO_CLIENT(k == PUBREC ? MQTTSN_PUBREC : k == PUBREL ? MQTTSN_PUBREL : MQTTSN_PUBCOMP); POST(o.msgid == J.msgid); REACH; }
	else if (J.ok && s == Cstat_Asleep && k == PUBREL) { ONE_TO_BROKER(PUBCOMP); POST(q.msgid == J.msgid); }
	else NOTHING;
}
void vph_gw_ack_in() { int t = vp_int(0, 2), k = t == 0 ? PUBREC : t == 1 ? PUBREL : PUBCOMP; setup(k); H->handleAck(C, J.p, k); ack_expect(k); }
// with the aggregater: the message id is the one of the client whose message it was
void vph_gw_aggregate_ack()
{
	int t = vp_int(0, 3), k = t == 0 ? PUBREC : t == 1 ? PUBREL : t == 2 ? PUBCOMP : PUBACK; setup(k); owned = vp_bool(); int orig = J.msgid;
	if (k == PUBACK)
	{
		MQTTSN_topicid x; x.type = MQTTSN_TOPIC_TYPE_PREDEFINED; x.data.id = 7; pending = new TopicIdMapElement(0, 7, &x);
		H->handleAggregatePuback(0, J.p); if (J.ok && owned) { ONE_TO_CLIENT(MQTTSN_PUBACK); POST(o.msgid == J.rc + 1 && released == 1); } else NOTHING; return;
	}
	H->handleAggregateAck(0, J.p, k);
	// the id is kept until the exchange is complete
	if (!owned) NOTHING; else { POST(J.msgid == J.rc + 1); POST(released == (k == PUBREC ? 0 : 1)); ack_expect(k); }
}
void vph_gw_aggregate_pubrel() { setup(PUBREL); C->_clientType = Ctype_Aggregater; H->handleAggregatePubrel(C, J.p); ONE_TO_BROKER(PUBCOMP); POST(q.msgid == J.msgid); REACH; }
// the gateway acknowledges the message to the broker; every client with a matching filter gets it once
static void aggregate_publish(int c0, int c1, bool m0, bool m1, int c2 = 0, bool m2 = false)
{
	setup(PUBLISH); AggregateTopicTable* T = &AG->_topicTable; for (int i = 0; i < M + 1; i++) pool[i] = (Client*)malloc(1);
	// filter i: client 0 or i + 1 or both
	bool has[M][2] = { { (c0 & 1) != 0, (c0 & 2) != 0 }, { (c1 & 1) != 0, (c1 & 2) != 0 }, { (c2 & 1) != 0, (c2 & 2) != 0 } }; int m = c2 ? 3 : 2;
	for (int i = 0; i < M; i++)
	{
		matches[i] = i == 2 ? m2 : i ? m1 : m0; AggregateTopicElement* f = new AggregateTopicElement(); f->_topic = raw<Topic>(); filter[i] = f;
		ClientTopicElement *a = new ClientTopicElement(pool[0]), *b = new ClientTopicElement(pool[i + 1]); f->_head = has[i][0] ? a : b; f->_tail = has[i][1] ? b : a; if (has[i][0] && has[i][1]) { a->_next = b; b->_prev = a; }
	}
	T->_head = filter[0]; T->_tail = filter[m - 1]; T->_cnt = m; filter[0]->_next = filter[1]; filter[1]->_prev = filter[0]; if (m == 3) { filter[1]->_next = filter[2]; filter[2]->_prev = filter[1]; }
	C->_clientType = Ctype_Aggregater; H->handleAggregatePublish(C, J.p);
	if (!J.ok) { NOTHING; return; }
	seen(0); seen(1); seen(2); seen(3); POST(acks == (J.qos ? 1 : 0));
	POST(got[0] == ((matches[0] && has[0][0]) || (matches[1] && has[1][0]) || (matches[2] && has[2][0]) ? 1 : 0)); POST(got[1] == (matches[0] && has[0][1] ? 1 : 0)); POST(got[2] == (matches[1] && has[1][1] ? 1 : 0)); POST(got[3] == (matches[2] && has[2][1] ? 1 : 0));
	REACH;
}
#ifdef VP_WIDE
void vph_gw_aggregate_many()
{	// 7 filters and 9 clients
	setup(PUBLISH); AggregateTopicTable* T = &AG->_topicTable; const int K = 9; Client* cl[K]; bool want[K] = {}; for (int i = 0; i < K; i++) cl[i] = (Client*)malloc(1); int m = vp_int(0, M), d = vp_int(0, 2);
	for (int i = 0; i < M; i++)
	{
		AggregateTopicElement* f = filter[i] = new AggregateTopicElement(); f->_topic = raw<Topic>(); matches[i] = vp_int(0, 3) != 0; if (i < m) { f->_prev = T->_tail; if (i) T->_tail->_next = f; else T->_head = f; T->_tail = f; T->_cnt++; }
		for (int j = 0; j < K; j++) if (vp_int(0, 2) >= d) { ClientTopicElement* e = new ClientTopicElement(cl[j]); e->_prev = f->_tail; if (f->_tail) f->_tail->_next = e; else f->_head = e; f->_tail = e; if (i < m && matches[i]) want[j] = true; }
	}
	C->_clientType = Ctype_Aggregater; H->handleAggregatePublish(C, J.p); if (!J.ok) { NOTHING; return; }
	for (int i = 0; i < nev; i++) { pool[0] = ev[i].e->_client; seen(i); } POST(acks == (J.qos ? 1 : 0));
	for (int j = 0; j < K; j++) { int n = 0; for (int i = 0; i < nev; i++) n += ev[i].e->_eventType == EtBrokerRecv && ev[i].e->_client == cl[j]; POST(n == want[j]); }
	int n = acks; for (int j = 0; j < K; j++) n += want[j]; POST(nev == n); REACH;
}
#endif
#define CASE(n, c0, c1, m0, m1) void vph_gw_aggregate_publish##n() { aggregate_publish(c0, c1, m0, m1); }
CASE(1, 3, 3, 1, 1) CASE(2, 3, 3, 1, 0) CASE(3, 3, 3, 0, 1) CASE(4, 3, 3, 0, 0) CASE(5, 2, 3, 1, 1) CASE(6, 3, 2, 1, 1) CASE(7, 1, 1, 1, 1) CASE(8, 2, 2, 1, 1)
void vph_gw_aggregate_publish9() { aggregate_publish(2, 1, 1, 1, 3, 1); }
void vph_gw_aggregate_publish10() { aggregate_publish(3, 2, 1, 0, 1, 1); }
}
