// TopicIdMap (C13) of the product's size: the loops over the list by invariant (window.h).
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWTopic.h"
using namespace MQTTSNGW;
#include "window.h"
static void* vp_block(size_t n) { return malloc(n); }
typedef TopicIdMapElement E;
static TopicIdMap M; static int kid; static bool none, some;
static void any(E* e) { e->_msgId = vp_u16(); e->_topicId = vp_u16(); e->_type = (MQTTSN_topicTypes)vp_int(0, 2); e->_wildcard = vp_int(0, 1); }
static unsigned long key(E* e) { return e->_msgId | (unsigned long)e->_topicId << 16 | (unsigned long)e->_type << 32 | (unsigned long)e->_wildcard << 40; }
static Window<E, &E::_next, &E::_prev, true, any, key> W;
static bool hit(E* e) { return e->_msgId == kid; }
extern "C" void vp_loop0__ZN8MQTTSNGW10TopicIdMap10getElementEt(void** cur, int again) { W.search(cur, again, hit, none, some); if (!again) { none = W.all; some = !none; } }
extern "C" void vp_loop0__ZN8MQTTSNGW10TopicIdMap5eraseEt(void** cur, int again) { W.search(cur, again, hit, none, some); if (!again) none = W.all; }
extern "C" void vp_wloop0__ZN8MQTTSNGW10TopicIdMap5clearEv(void** cur, int again) { W.wipe(cur, again); }
extern "C" void vp_wloop0__ZN8MQTTSNGW10TopicIdMapD2Ev(void** cur, int again) { W.wipe(cur, again); }
// the constructor looks for a wildcard in a topic name of any length
static unsigned char* nm; static int nlen, ni, nw; static bool looked;
static bool wild(int c) { return c == '#' || c == '+'; }
extern "C" void* vp_newest();
extern "C" void vp_frame(void* a) { POST(a == &((E*)vp_newest())->_wildcard); }
// _wildcard is whether one of the characters before i is a wildcard; none of them is 0
extern "C" void vp_wloop0__ZN8MQTTSNGW17TopicIdMapElementC2EttP14MQTTSN_topicid(int* i, int again)
{
	E* e = (E*)vp_newest();
	if (!again) { POST(*i == 0 && e->_wildcard == 0); *i = ni = vp_int(0, nlen); e->_wildcard = nw = vp_int(0, 1); if (ni == 0) ASSUME(nw == 0); looked = true; return; }
	POST(*i == ni + 1 && ni < nlen && nm[ni] != 0 && (e->_wildcard != 0) == (nw || wild(nm[ni])));
}
static void topic(MQTTSN_topicid* t)
{
	t->type = (MQTTSN_topicTypes)vp_int(0, 2); t->data.id = vp_u16(); looked = false;
	if (t->type == MQTTSN_TOPIC_TYPE_NORMAL) { nlen = vp_int(0, 65535); nm = vp_new(nlen); t->data.long_.name = (char*)nm; t->data.long_.len = nlen; }
}
static void map() { W.any(MAX_INFLIGHTMESSAGES * 2 + 1); M._cnt = W.n; M._maxInflight = MAX_INFLIGHTMESSAGES; M._first = W.first(); M._end = W.last(); M._msgIds = 0; kid = vp_u16(); }
static void same(int gone, E* added) { POST(M._first == W.first(gone, added) && M._end == (added ? added : W.last(gone)) && M._cnt == W.n - (gone >= 0) + (added != 0)); W.is(gone, added); }
static bool fresh(E* e) { return e && e != W.f && e != W.t && e != W.p && e != W.c && e != W.x && e != W.far; }
static void nothing() { POST(M._first == 0 && M._end == 0 && M._cnt == 0); }
// the element made of a topic
static void made(E* e, int tp, MQTTSN_topicid* t)
{
	POST(e->getTopicType() == t->type);
	if (t->type == MQTTSN_TOPIC_TYPE_NORMAL) { POST(looked && (ni == nlen || nm[ni] == 0)); POST(e->getTopicId() == (nw ? 0 : tp)); }
	else POST(e->getTopicId() == tp);
}
extern "C" {
void vph_mget() { map(); E* e = M.getElement(kid); POST(e == (none ? (E*)0 : W.d) && (none || (e && hit(e)))); if (e) { POST(e->getTopicType() == e->_type); POST(e->getTopicId() == (e->_wildcard ? 0 : e->_topicId)); } same(-1, 0); REACH; }
void vph_mctor() { MQTTSN_topicid t; topic(&t); int id = vp_u16(), tp = vp_u16(); E* e = new E(id, tp, &t); POST(e->_msgId == id && e->_next == 0 && e->_prev == 0); made(e, tp, &t); REACH; }
// a message id that is in use is given its new topic; nothing else changes
void vph_madd()
{
	map(); int tp = vp_u16(); MQTTSN_topicid t; topic(&t); bool valid = tp != 0 || t.type == MQTTSN_TOPIC_TYPE_SHORT; E* e = M.add(kid, tp, &t);
	if (!valid) POST(e == 0);
	if (valid && W.n < MAX_INFLIGHTMESSAGES * 2) POST(e != 0);
	if (e == 0) same(-1, 0);
	else { POST(fresh(e) && e->_msgId == kid); made(e, tp, &t); POST(none || (W.key(W.i) & 0xffff) == kid); same(none ? -1 : W.i, e); REACH; }
}
void vph_merase() { map(); M.erase(kid); if (none) same(-1, 0); else { POST((W.key(W.i) & 0xffff) == kid && vp_gone() == W.d); same(W.i, 0); } REACH; }
void vph_mclear() { map(); M.clear(); POST(W.all); nothing(); REACH; }
void vph_mdtor() { map(); M.~TopicIdMap(); POST(W.all); REACH; }
}
