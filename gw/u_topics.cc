// Topics (C11, C12) for tables of any length: the loops over the list by invariant (window.h).
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWTopic.h"
using namespace MQTTSNGW;
#include "window.h"
static void* vp_block(size_t n) { return malloc(n); }
typedef Topic E;
static Topics T; static int kid, ktype, normals, old; static unsigned kname; static std::string* kstr; static bool none, noneId, noneMatch, matching;
static int age(int id) { int d = T._nextTopicId - id; return d < 0 ? d + 65534 : d; }   // how many ids were given out since id
static void any(E* e)
{
	e->_type = vp_bool() ? MQTTSN_TOPIC_TYPE_NORMAL : MQTTSN_TOPIC_TYPE_PREDEFINED; e->_topicId = vp_int(1, 0xffff); e->_topicName = new std::string(vp_name());
	if (e->_type == MQTTSN_TOPIC_TYPE_NORMAL) ASSUME(e->_topicId < 0xffff && age(e->_topicId) < normals && T._nextTopicId > 0);
}
static unsigned long key(E* e) { return (e->_type == MQTTSN_TOPIC_TYPE_NORMAL) | e->_topicId << 8 | (unsigned long)e->_topicName->t << 32; }
static Window<E, &E::_next, &E::_next, false, any, key> W;
static bool sameName(E* e) { return e->_topicName->t == kname; }
static bool sameId(E* e) { return e->_type == ktype && e->_topicId == kid; }
static bool isLast(E* e) { return e->_next == 0; }
// whether a filter matches the name: any function of the two (C12)
static bool matches(E* e) { return e->_topicId & 1; }
extern "C" void vp_ghost__ZN8MQTTSNGW5Topic7isMatchEPSt6string() {}
bool Topic::isMatch(std::string* s) { POST(s->t == kname); return matches(this); }
extern "C" void vp_loop0__ZN8MQTTSNGW6Topics14getTopicByNameEPK14MQTTSN_topicid(void** cur, int again) { W.search(cur, again, sameName, none); if (!again) none = W.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW6Topics12getTopicByIdEPK14MQTTSN_topicid(void** cur, int again) { W.search(cur, again, sameId); if (!again) noneId = W.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW6Topics3addEPKct(void** cur, int again) { W.search(cur, again, isLast); }
extern "C" void vp_loop0__ZN8MQTTSNGW6Topics5matchEPK14MQTTSN_topicid(void** cur, int again) { W.search(cur, again, matches); if (!again) noneMatch = W.all; }
static void table() { normals = vp_int(0, MAX_TOPIC_PAR_CLIENT); old = T._nextTopicId = vp_int(0, 0xfffe); W.any(MAX_TOPIC_PAR_CLIENT); ASSUME(normals <= W.n); T._cnt = W.n; T._first = W.first(); }
static void same(E* added) { POST(T._first == W.first(-1, added) && T._cnt == W.n + (added != 0)); W.is(-1, added); }
static void named(MQTTSN_topicid* id) { id->type = MQTTSN_TOPIC_TYPE_NORMAL; id->data.long_.name = vp_name(); id->data.long_.len = strlen(id->data.long_.name); kstr = new std::string(id->data.long_.name); kname = kstr->t; }
static bool fresh(E* e) { return e && e != W.f && e != W.t && e != W.p && e != W.c && e != W.x && e != W.far; }
// eraseNormal: before each step the list is m predefined topics and the topics from i on; keptF, keptL are the first and the last of the m
static int ei, em, ectype; static E *keptF, *keptL, *ec, *ex; static unsigned long kl;
static E* ehead() { return em > 0 ? keptF : ec; }
extern "C" void vp_frame(void* a) { POST(a == &T._first || a == &T._cnt || (em > 0 && a == &keptL->_next)); }
extern "C" void vp_wloop0__ZN8MQTTSNGW6Topics11eraseNormalEv(void** topic, void** prev, int again)
{
	if (!again)
	{
		POST(*topic == T._first && *prev == 0 && T._first == W.first() && T._cnt == W.n); W.is(-1, 0);
		ei = vp_int(0, W.n); em = vp_int(0, W.n); ASSUME(em <= ei); keptF = W.node(); keptL = em == 1 ? keptF : W.node(); ec = ei < W.n ? W.node() : 0; ex = ei + 1 < W.n ? W.node() : 0;
		ASSUME(keptF->_type == MQTTSN_TOPIC_TYPE_PREDEFINED && keptL->_type == MQTTSN_TOPIC_TYPE_PREDEFINED);
		keptF->_next = em == 1 ? ec : em == 2 ? keptL : W.far; keptL->_next = ec; if (ec) ec->_next = ex; if (ex) ex->_next = ei + 2 < W.n ? W.far : 0;
		if (ec) ectype = ec->_type; T._first = ehead(); T._cnt = em + W.n - ei; *topic = ec; *prev = em > 0 ? keptL : 0; kl = key(keptL);
		return;
	}
	POST(ec != 0 && *topic == ex);
	if (vp_gone() == ec) { POST(ectype == MQTTSN_TOPIC_TYPE_NORMAL && *prev == (em > 0 ? keptL : 0) && T._cnt == em + W.n - ei - 1 && T._first == (em > 0 ? keptF : ex)); if (em > 0) POST(keptL->_next == ex); }
	else { POST(ec->_type == MQTTSN_TOPIC_TYPE_PREDEFINED && *prev == ec && T._cnt == em + W.n - ei && T._first == ehead() && ec->_next == ex); if (em > 0) POST(keptL->_next == ec); }
	POST(em == 0 || key(keptL) == kl);
}
extern "C" {
void vph_tbyname() { table(); MQTTSN_topicid id; named(&id); E* e = T.getTopicByName(&id); POST(e == (none ? (E*)0 : W.d) && (none || (e && sameName(e)))); same(0); REACH; }
void vph_tbyid() { table(); MQTTSN_topicid id; id.type = vp_bool() ? MQTTSN_TOPIC_TYPE_NORMAL : MQTTSN_TOPIC_TYPE_PREDEFINED; ktype = id.type; kid = id.data.id = vp_u16(); E* e = T.getTopicById(&id); POST(e == (noneId ? (E*)0 : W.d) && (noneId || (e && sameId(e)))); same(0); REACH; }
// the first topic whose filter matches the name
void vph_tmatch() { table(); MQTTSN_topicid id; named(&id); E* e = T.match(&id); POST(e == (noneMatch ? (E*)0 : W.d) && (noneMatch || (e && matches(e)))); same(0); REACH; }
void vph_tadd()
{
	table(); MQTTSN_topicid id; named(&id); E* e = T.add(&id); E* o = W.far; // any topic
	if (!none) { POST(e == W.d && e && sameName(e)); same(0); }
	else if (W.n == MAX_TOPIC_PAR_CLIENT) { POST(e == 0); same(0); }
	else
	{
		POST(fresh(e) && sameName(e) && e->_next == 0 && e->_type == MQTTSN_TOPIC_TYPE_NORMAL && e->_topicId != 0 && e->_topicId != 0xffff && age(e->_topicId) == 0); same(e);
		if (o->_type == MQTTSN_TOPIC_TYPE_NORMAL) POST(o->_topicId != e->_topicId && age(o->_topicId) < normals + 1);
		REACH;
	}
}
void vph_tpredefined()
{
	table(); MQTTSN_topicid id; named(&id); int i = vp_int(1, 0xffff); E* e = T.add(id.data.long_.name, i); POST(T._nextTopicId == old);
	if (W.n == MAX_TOPIC_PAR_CLIENT) same(0);
	else if (!none) { POST(e == W.d && e && sameName(e)); same(0); }
	else { POST(fresh(e) && sameName(e) && e->_next == 0 && e->_type == MQTTSN_TOPIC_TYPE_PREDEFINED && e->_topicId == i); same(e); REACH; }
}
void vph_terase() { table(); int n = W.n; T.eraseNormal(); POST(ei == n && T._first == (em > 0 ? keptF : 0) && T._cnt == em); if (em > 0) POST(keptL->_next == 0 && key(keptL) == kl); REACH; }
}
