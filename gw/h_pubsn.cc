// Contracts of MQTTSNPublishHandler (C14): messages from clients.
#include "hand.h"
#include "MQTTSNGWPublishHandler.h"
// ---- collaborators
static Topic *known, *common; static bool full; static int wMsg, wTid, wType, wCalls, adds, saved; static char* commonName;
static Topic* topic(int id, char* name) { Topic* t = new Topic; t->_type = MQTTSN_TOPIC_TYPE_PREDEFINED; t->_topicId = id; t->_topicName = new std::string(name); return t; }
Topic* Topics::getTopicById(const MQTTSN_topicid* t)
{
	POST(t->type == I.ttype && t->data.id == I.tid); POST(this == TC || this == TG);
	return this == TC ? known : common;
}
Topic* Topics::add(const char* name, uint16_t id)
{
	POST(this == TC); POST(text_is(name, text_len(name), commonName)); POST(id == I.tid); adds++;
	return full ? 0 : topic(id, commonName);
}
TopicIdMapElement* TopicIdMap::add(uint16_t m, uint16_t t, MQTTSN_topicid* topic) { POST(this == &C->_waitedPubTopicIdMap); wCalls++; wMsg = m; wTid = t; wType = topic->type; return 0; }
void Adapter::savePacket(Client* c, MQTTSNPacket* p) { POST(c == C && p == I.p); saved++; }
static Topic* reg; static int newId;
Topic* Topics::add(const MQTTSN_topicid* t) { POST(this == TC); POST(t->type == MQTTSN_TOPIC_TYPE_NORMAL && text_is(t->data.long_.name, t->data.long_.len, I.name)); adds++; return reg; }
static MQTTSNPacket* waiting; static int left, erased;
MQTTSNPacket* WaitREGACKPacketList::getPacket(uint16_t m) { POST(this == &C->_waitREGACKList && m == I.msgid); return waiting; }
void WaitREGACKPacketList::erase(uint16_t m) { POST(this == &C->_waitREGACKList && m == I.msgid); erased++; }
uint8_t WaitREGACKPacketList::getCount() { return left; }
static int assigned, usual, tabled, looked;
uint16_t Aggregater::addMessageIdTable(Client* c, uint16_t m) { POST(this == AG && c == C && m == I.msgid); tabled++; return assigned; }
uint16_t Aggregater::getMsgId(Client* c, uint16_t m) { POST(this == AG && c == C && m == I.msgid); looked++; return usual; }
static MQTTSNPublishHandler* H;
static void setup(int type) { gateway(); incoming(type); H = new MQTTSNPublishHandler(G); }
#define ACKED (I.qos == 1 || I.qos == 2)
// the packet is the PUBLISH of the client: same flags, id, topic and payload
static void forwarded(Mq& q, Topic* t)
{
	POST(q.type == PUBLISH); POST(q.pub.header.bits.dup == I.dup && q.pub.header.bits.retain == I.retain); POST(q.pub.header.bits.qos == (I.qos == 3 ? 0 : I.qos));
	if (I.ttype == MQTTSN_TOPIC_TYPE_SHORT) POST(q.pub.topiclen == 2 && q.c0 == I.s0 && q.c1 == I.s1); else { POST(t != 0); POST(text_is(q.pub.topic, q.pub.topiclen, t->_topicName->c_str())); }
	POST(q.pub.payload == (char*)I.payload && q.pub.payloadlen == I.len);
	if (ACKED) POST(wCalls == 1 && wMsg == I.msgid && wType == I.ttype && wTid == (I.ttype == MQTTSN_TOPIC_TYPE_SHORT ? (unsigned char)I.s0 * 256 + (unsigned char)I.s1 : I.tid)); else POST(wCalls == 0);
}
static void publish()
{
	known = vp_bool() ? topic(I.tid, vp_name()) : 0; commonName = vp_name(); common = vp_bool() ? topic(I.tid, commonName) : 0; full = vp_bool();
	bool isShort = I.ttype == MQTTSN_TOPIC_TYPE_SHORT; Topic* t = isShort ? 0 : known ? known : common;
	bool later = !qpActive && C->_clientType == Ctype_QoS_1, agg = agActive && C->_clientType == Ctype_Aggregated, fails = vp_bool(); assigned = fails ? 0 : vp_int(1, 0xffff); usual = fails ? 0 : vp_int(1, 0xffff);
	bool viaAgg = vp_bool(); MQTTGWPacket* r = 0;
	if (viaAgg) { ASSUME(agg); H->handleAggregatePublish(C, I.p); } else r = H->handlePublish(C, I.p);
	bool drop = !I.ok || (ACKED && I.msgid == 0) || (!isShort && !t) || (!isShort && !ACKED && I.msgid);
	POST(saved == (later ? 1 : 0));
	if (later) { NOTHING; POST(r == 0 && wCalls == 0); return; }
	if (I.ok && ACKED && I.msgid && !isShort && !t) { ONE_TO_CLIENT(MQTTSN_PUBACK); POST(o.tid == I.tid && o.msgid == I.msgid && o.rc == MQTTSN_RC_REJECTED_INVALID_TOPIC_ID); POST(r == 0 && wCalls == 0); return; }
	if (drop) { NOTHING; POST(r == 0 && wCalls == 0); return; }
	if (viaAgg)
	{
		// a message is given a new id, a repeated one the id it was given
		POST(tabled == (ACKED && !I.dup) && looked == (ACKED && I.dup)); if (ACKED && fails) { NOTHING; return; }
		ONE_TO_BROKER(PUBLISH); forwarded(q, t); POST(q.msgid == (!ACKED ? 0 : I.dup ? usual : assigned)); REACH; return;
	}
	if (agg) { NOTHING; POST(r != 0 && mq(r) != 0); Mq& q = *mq(r); forwarded(q, t); if (ACKED) POST(q.msgid == I.msgid); }
	else { POST(r == 0); ONE_TO_BROKER(PUBLISH); forwarded(q, t); if (ACKED) POST(q.msgid == I.msgid); REACH; }
}
extern "C" {
void vph_sn_publish_in() { setup(MQTTSN_PUBLISH); ASSUME(I.ttype == MQTTSN_TOPIC_TYPE_SHORT); publish(); }
void vph_sn_publish_id() { setup(MQTTSN_PUBLISH); ASSUME(I.ttype != MQTTSN_TOPIC_TYPE_SHORT); publish(); }
void vph_sn_puback_in()
{
	setup(MQTTSN_PUBACK); H->handlePuback(C, I.p);
	if (C->_status == Cstat_Active && I.ok && I.rc == MQTTSN_RC_ACCEPTED && !agActive) { ONE_TO_BROKER(PUBACK); POST(q.msgid == I.msgid); REACH; } else NOTHING;
}
void vph_sn_ack_in()
{
	int t = vp_int(0, 2), m = t == 0 ? MQTTSN_PUBREC : t == 1 ? MQTTSN_PUBREL : MQTTSN_PUBCOMP, k = t == 0 ? PUBREC : t == 1 ? PUBREL : PUBCOMP; setup(m);
	if (vp_bool()) { H->handleAck(C, I.p, k); if (C->_status == Cstat_Active && I.ok) { ONE_TO_BROKER(k); POST(q.msgid == I.msgid); REACH; } else NOTHING; }
	else
	{
		usual = vp_u16(); H->handleAggregateAck(C, I.p, m);
		if (m == MQTTSN_PUBREC && I.ok) { ONE_TO_CLIENT(MQTTSN_PUBREL); POST(o.msgid == I.msgid); }
		else if (m == MQTTSN_PUBREL && I.ok && usual) { ONE_TO_BROKER(PUBREL); POST(q.msgid == usual); REACH; }
		else if (m == MQTTSN_PUBREL && I.ok) { ONE_TO_CLIENT(MQTTSN_PUBCOMP); POST(o.msgid == I.msgid); }
		else NOTHING;
	}
}
void vph_sn_register_in()
{
	setup(MQTTSN_REGISTER); newId = vp_int(1, 0xfffe); reg = vp_bool() ? topic(newId, vp_name()) : 0; H->handleRegister(C, I.p);
	if ((C->_status == Cstat_Active || C->_status == Cstat_Awake) && I.ok) { ONE_TO_CLIENT(MQTTSN_REGACK); POST(adds == 1 && o.msgid == I.msgid); if (reg) POST(o.tid == newId && o.rc == MQTTSN_RC_ACCEPTED); else POST(o.rc != MQTTSN_RC_ACCEPTED); REACH; } else { NOTHING; POST(adds == 0); }
}
void vph_sn_regack_in()
{
	setup(MQTTSN_REGACK); waiting = vp_bool() ? raw<MQTTSNPacket>() : 0; left = vp_int(0, 3); bool hold = C->_holdPingRequest = vp_bool(); H->handleRegAck(C, I.p);
	if (!((C->_status == Cstat_Active || C->_status == Cstat_Awake) && I.ok)) { NOTHING; return; }
	int n = 0; if (waiting) { POST(nev >= 1 && toClient(0, C, waiting)); POST(erased == 1); n = 1; }
	if (hold && left == 0) { POST(nev == n + 1 && ev[n].e->_mqttGWPacket != 0); Mq& q = *mq(ev[n].e->_mqttGWPacket); POST(toBroker(n, C, q.p) && q.type == PINGREQ); POST(!C->_holdPingRequest); REACH; } else { POST(nev == n); POST(C->_holdPingRequest == hold); }
}
}
