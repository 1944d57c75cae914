// Contracts of TopicIdMap (C13): which topic a pending PUBLISH or SUBSCRIBE was about.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWTopic.h"
using namespace MQTTSNGW;
#ifndef NAMELEN
#define NAMELEN 3
#endif
#define CAP (MAX_INFLIGHTMESSAGES * 2 + 1)
static TopicIdMap M; static TopicIdMapElement* node[CAP]; static int n, mid[CAP], tid[CAP], typ[CAP], wild[CAP];
static TopicIdMapElement* element()
{
	MQTTSN_topicid t; t.type = MQTTSN_TOPIC_TYPE_PREDEFINED; t.data.id = 0;
	return new TopicIdMapElement(0, 0, &t);
}
static void map()
{
	n = vp_int(0, CAP); M._cnt = n; M._maxInflight = MAX_INFLIGHTMESSAGES; M._first = M._end = 0; M._msgIds = 0;
	for (int i = 0; i < CAP; i++)
	{
		TopicIdMapElement* e = node[i] = element();
		e->_msgId = mid[i] = vp_u16(); e->_topicId = tid[i] = vp_u16(); e->_type = (MQTTSN_topicTypes)(typ[i] = vp_int(0, 2)); e->_wildcard = wild[i] = vp_int(0, 1);
		for (int j = 0; j < i; j++) if (i < n) ASSUME(mid[i] != mid[j]);
	}
	for (int i = 0; i < CAP; i++) { if (i + 1 < n) node[i]->_next = node[i + 1]; if (i > 0 && i < n) node[i]->_prev = node[i - 1]; }
	if (n) { M._first = node[0]; M._end = node[n - 1]; }
}
static int find(int id) { for (int i = 0; i < CAP; i++) if (i < n && mid[i] == id) return i; return -1; }
// a well formed list of c elements
static bool wf(int c)
{
	TopicIdMapElement *p = M._first, *q = 0; int k = 0;
	for (int i = 0; i <= CAP; i++) if (p) { if (p->_prev != q) return false; q = p; p = p->_next; k++; }
	return p == 0 && M._end == q && k == c && M._cnt == c;
}
// what the map says of id is what it said before
static void same(int id)
{
	int i = find(id); TopicIdMapElement* e = M.getElement(id);
	if (i < 0) POST(e == 0); else { POST(e != 0); POST(e->_msgId == id && e->_topicId == tid[i] && e->_type == typ[i] && e->_wildcard == wild[i]); }
}
extern "C" {
void vph_idmap_get()
{
	map(); int id = vp_u16(), i = find(id); TopicIdMapElement* e = M.getElement(id);
	if (i < 0) POST(e == 0); else { POST(e != 0); POST(e->getTopicType() == typ[i]); POST(e->getTopicId() == (wild[i] ? 0 : tid[i])); }
	POST(wf(n)); REACH;
}
void vph_idmap_add()
{
	map(); int id = vp_u16(), tp = vp_u16(), o = vp_u16(), i = find(id), len = vp_int(0, NAMELEN); MQTTSN_topicid t; t.type = (MQTTSN_topicTypes)vp_int(0, 2); t.data.id = vp_u16();
	bool w = false;     // a topic filter with a wildcard (a topic name holds no NUL)
	if (t.type == MQTTSN_TOPIC_TYPE_NORMAL) { unsigned char* b = vp_new(len); t.data.long_.name = (char*)b; t.data.long_.len = len; for (int k = 0; k < NAMELEN && !(k < len && b[k] == 0); k++) if (k < len && (b[k] == '#' || b[k] == '+')) w = true; }
	bool valid = tp != 0 || t.type == MQTTSN_TOPIC_TYPE_SHORT;
	TopicIdMapElement* e = M.add(id, tp, &t);
	if (!valid) POST(e == 0);
	if (valid && n < MAX_INFLIGHTMESSAGES * 2) POST(e != 0);
	if (e) { POST(M.getElement(id) == e); POST(e->getTopicType() == t.type); POST(e->getTopicId() == (w ? 0 : tp)); POST(wf(i < 0 ? n + 1 : n)); if (o != id) same(o); }
	else { POST(wf(n)); same(o); }
	REACH;
}
void vph_idmap_erase()
{
	map(); int id = vp_u16(), o = vp_u16(), i = find(id);
	M.erase(id);
	POST(M.getElement(id) == 0); POST(wf(i < 0 ? n : n - 1)); if (o != id) same(o);
	REACH;
}
void vph_idmap_clear() { map(); M.clear(); POST(wf(0)); POST(M.getElement(vp_u16()) == 0); REACH; }
}
