// Contracts of MQTTSNSubscribeHandler and MQTTGWSubscribeHandler (C16).
#include "hand.h"
#include "MQTTSNGWSubscribeHandler.h"
#include "MQTTGWSubscribeHandler.h"
static Topic *mine, *common, *named, *added; static int adds, waits, waitTid, waitType, erases, tabled, untabled; static TopicIdMapElement* pending;
static Topic* topic(int type, int id) { Topic* t = new Topic; t->_type = (MQTTSN_topicTypes)type; t->_topicId = id; t->_topicName = new std::string(vp_name()); return t; }
static Topic* topic(int type, int id, const char* name) { Topic* t = topic(type, id); *t->_topicName = name; return t; }
Topic* Topics::getTopicById(const MQTTSN_topicid* t) { POST((this == TC || this == TG) && t->type == MQTTSN_TOPIC_TYPE_PREDEFINED && t->data.id == I.tid); return this == TC ? mine : common; }
Topic* Topics::getTopicByName(const MQTTSN_topicid* t) { POST(this == TC && text_is(t->data.long_.name, t->data.long_.len, I.name)); return named; }
Topic* Topics::add(const MQTTSN_topicid* t) { POST(this == TC && t->type == MQTTSN_TOPIC_TYPE_NORMAL && text_is(t->data.long_.name, t->data.long_.len, I.name)); POST(named == 0); adds++; return added; }
Topic* Topics::add(const char* name, uint16_t id) { POST(this == TC && common != 0 && mine == 0 && id == I.tid && text_is(name, text_len(name), common->_topicName->data())); adds++; return added; }
TopicIdMapElement* TopicIdMap::add(uint16_t m, uint16_t id, MQTTSN_topicid* t) { POST(this == &C->_waitedSubTopicIdMap && m == I.msgid); waits++; waitTid = id; waitType = t->type; if (t->type == MQTTSN_TOPIC_TYPE_NORMAL) POST(t->data.long_.name == I.name); return 0; }
TopicIdMapElement* TopicIdMap::getElement(uint16_t m) { POST(this == &C->_waitedSubTopicIdMap && m == J.msgid); return pending; }
void TopicIdMap::erase(uint16_t m) { POST(this == &C->_waitedSubTopicIdMap && m == J.msgid); erases++; }
static bool owned; static int origId, conv, aggs; static char *aggName; static int aggLen, aggFrom;
static Client* owner(uint16_t m, uint16_t* c, bool erase) { POST(erase); POST(m == origId); *c = owned ? J.rc + 1 : 0; return owned ? C : 0; }
Client* AdapterManager::convertClient(uint16_t m, uint16_t* c, bool erase) { return owner(m, c, erase); }
Client* Aggregater::convertClient(uint16_t m, uint16_t* c, bool erase) { return owner(m, c, erase); }
uint16_t Aggregater::getMsgId(Client* c, uint16_t m) { POST(this == AG && c == C && m == I.msgid && I.dup); return conv; }
uint16_t Aggregater::addMessageIdTable(Client* c, uint16_t m) { POST(this == AG && c == C && m == I.msgid && !I.dup); return conv; }
static AggregateTopicElement* agg(Topic* t, Client* c, int k) { POST(c == C); aggs++; aggFrom = k; aggName = (char*)t->_topicName->data(); aggLen = t->_topicName->length(); POST(nq == 1 && text_is(aggName, aggLen, Q0.topic)); return 0; }
AggregateTopicElement* Aggregater::addAggregateTopic(Topic* t, Client* c) { return agg(t, c, 1); }
void Aggregater::removeAggregateTopic(Topic* t, Client* c) { agg(t, c, 2); }
static MQTTSNSubscribeHandler* H; static MQTTGWSubscribeHandler* B;
static void setup(int type)
{
	gateway(); incoming(type); I.qos = vp_int(0, 2); H = new MQTTSNSubscribeHandler(G); conv = vp_u16(); int id = vp_int(1, 0xfffe);
	mine = vp_bool() ? topic(MQTTSN_TOPIC_TYPE_PREDEFINED, I.tid) : 0; common = vp_bool() ? topic(MQTTSN_TOPIC_TYPE_PREDEFINED, I.tid) : 0; named = vp_bool() ? topic(vp_bool() ? MQTTSN_TOPIC_TYPE_NORMAL : MQTTSN_TOPIC_TYPE_PREDEFINED, id, I.name) : 0;
	added = !vp_bool() ? 0 : I.ttype == MQTTSN_TOPIC_TYPE_PREDEFINED ? topic(I.ttype, I.tid, common ? common->_topicName->data() : I.name) : topic(MQTTSN_TOPIC_TYPE_NORMAL, id, I.name);
}
static void setupB(int type) { gateway(); broker(type); B = new MQTTGWSubscribeHandler(G); origId = J.msgid; if (vp_bool()) { MQTTSN_topicid t; t.type = MQTTSN_TOPIC_TYPE_PREDEFINED; t.data.id = vp_u16(); pending = new TopicIdMapElement(J.msgid, t.data.id, &t); } }
static void asks(Mq& q, int type, const Topic* t)
{
	POST(q.type == type); if (type == SUBSCRIBE) POST(q.qos == I.qos);
	if (I.ttype == MQTTSN_TOPIC_TYPE_SHORT) POST(q.c0 == I.s0 && q.c1 == I.s1); else POST(text_is(q.topic, q.topiclen, t->_topicName->data()));
}
// the topic a SUBSCRIBE is about; rejected when there is none
static bool subscribed(const Topic*& t, int& id)
{
	if (I.ttype == MQTTSN_TOPIC_TYPE_SHORT) { t = 0; id = (unsigned char)I.s0 * 256 + (unsigned char)I.s1; POST(adds == 0); return true; }
	if (I.ttype == MQTTSN_TOPIC_TYPE_PREDEFINED) { t = mine ? mine : common ? added : 0; id = I.tid; POST(adds == (!mine && common)); }
	else { t = named ? named : added; id = t ? t->_topicId : 0; POST(adds == (!named)); }
	return t != 0;
}
static bool remembered(int id) { return waits == 1 && waitTid == id && waitType == I.ttype; }
extern "C" {
void vph_sub_in()
{
	setup(MQTTSN_SUBSCRIBE); MQTTGWPacket* r = H->handleSubscribe(C, I.p);
	if (!I.ok || I.msgid == 0) { NOTHING; POST(r == 0 && waits == 0 && adds == 0); return; }
	const Topic* t; int id; if (!subscribed(t, id)) { ONE_TO_CLIENT(MQTTSN_SUBACK); POST(r == 0 && waits == 0); POST(o.msgid == I.msgid && o.rc == MQTTSN_RC_REJECTED_INVALID_TOPIC_ID); POST(o.tid == (I.ttype == MQTTSN_TOPIC_TYPE_PREDEFINED ? I.tid : 0)); return; }
	POST(remembered(id)); REACH;
	if (C->isAggregated()) { NOTHING; POST(r != 0 && mq(r) != 0); Mq& q = *mq(r); asks(q, SUBSCRIBE, t); POST(q.msgid == I.msgid); }
	else { POST(r == 0); ONE_TO_BROKER(SUBSCRIBE); asks(q, SUBSCRIBE, t); POST(q.msgid == I.msgid); }
}
void vph_unsub_in()
{
	setup(MQTTSN_UNSUBSCRIBE); MQTTGWPacket* r = H->handleUnsubscribe(C, I.p); POST(adds == 0 && waits == 0);
	if (!I.ok || I.msgid == 0) { NOTHING; POST(r == 0); return; }
	const Topic* t = I.ttype == MQTTSN_TOPIC_TYPE_PREDEFINED ? mine : named;
	if (I.ttype != MQTTSN_TOPIC_TYPE_SHORT && t == 0) { ONE_TO_CLIENT(MQTTSN_UNSUBACK); POST(o.msgid == I.msgid && r == 0); return; }
	REACH;
	if (C->isAggregated()) { NOTHING; POST(r != 0 && mq(r) != 0); Mq& q = *mq(r); asks(q, UNSUBSCRIBE, t); POST(q.msgid == I.msgid); }
	else { POST(r == 0); ONE_TO_BROKER(UNSUBSCRIBE); asks(q, UNSUBSCRIBE, t); POST(q.msgid == I.msgid); }
}
// an aggregated client: the broker sees the message id of the aggregater, the filter is entered or removed for the client
void vph_sub_aggregate()
{
	bool sub = vp_bool(); setup(sub ? MQTTSN_SUBSCRIBE : MQTTSN_UNSUBSCRIBE); C->_clientType = Ctype_Aggregated; POST(C->isAggregated());
	const Topic* t = 0; int id;
	if (sub) H->handleAggregateSubscribe(C, I.p); else H->handleAggregateUnsubscribe(C, I.p);
	if (!I.ok || I.msgid == 0) { NOTHING; POST(aggs == 0); return; }
	if (sub) { if (!subscribed(t, id)) { ONE_TO_CLIENT(MQTTSN_SUBACK); POST(aggs == 0); return; } }
	else { t = I.ttype == MQTTSN_TOPIC_TYPE_PREDEFINED ? mine : named; if (I.ttype != MQTTSN_TOPIC_TYPE_SHORT && t == 0) { ONE_TO_CLIENT(MQTTSN_UNSUBACK); POST(aggs == 0); return; } }
	if (conv == 0) { NOTHING; POST(aggs == 0); return; }
	ONE_TO_BROKER(sub ? SUBSCRIBE : UNSUBSCRIBE); asks(q, sub ? SUBSCRIBE : UNSUBSCRIBE, t); POST(q.msgid == conv); POST(aggs == 1 && aggFrom == (sub ? 1 : 2)); REACH;
}
static void suback_expect()
{
	if (!J.ok || !pending) { NOTHING; POST(erases == 0); return; }
	ONE_TO_CLIENT(MQTTSN_SUBACK); POST(o.msgid == J.msgid && o.tid == pending->_topicId); POST(erases == 1); REACH;
	if (J.rc == 0x80) POST(o.rc == MQTTSN_RC_REJECTED_INVALID_TOPIC_ID); else { POST(o.rc == MQTTSN_RC_ACCEPTED); POST(o.qos == J.rc); }
}
void vph_suback_in() { setupB(SUBACK); B->handleSuback(C, J.p); suback_expect(); }
void vph_unsuback_in() { setupB(UNSUBACK); B->handleUnsuback(C, J.p); if (!J.ok) NOTHING; else { ONE_TO_CLIENT(MQTTSN_UNSUBACK); POST(o.msgid == J.msgid); REACH; } POST(erases == 0); }
void vph_suback_aggregate()
{
	bool s = vp_bool(); setupB(s ? SUBACK : UNSUBACK); owned = vp_bool();
	if (s) B->handleAggregateSuback(0, J.p); else B->handleAggregateUnsuback(0, J.p);
	if (!owned) { NOTHING; return; }
	POST(J.msgid == J.rc + 1); if (s) suback_expect(); else if (!J.ok) NOTHING; else { ONE_TO_CLIENT(MQTTSN_UNSUBACK); POST(o.msgid == J.msgid); }
}
}
