// Contracts of Topics (C11): the topic table of a client, in any state the invariant allows.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWTopic.h"
using namespace MQTTSNGW;
#ifndef CAP
#define CAP MAX_TOPIC_PAR_CLIENT
#endif
// whether a topic matches a name: by contract (C12)
static bool hits[CAP + 1]; static const char* sought;
// ---- a table of n topics in any state of the invariant
static Topics T; static Topic* node[CAP]; static int n, normals;
static int typ[CAP], tid[CAP]; static char* name[CAP];
static int age(int id) { int d = T._nextTopicId - id; return d < 0 ? d + 65534 : d; }   // how many ids were given out since id
static bool same(const std::string& a, const char* b) { return a.compare(b) == 0; }
static void table()
{
	n = vp_int(0, CAP); T._cnt = n; T._nextTopicId = vp_int(0, 0xfffe); T._first = 0; normals = 0;
	for (int i = 0; i < CAP; i++)
	{
		node[i] = new Topic();
		typ[i] = vp_bool() ? MQTTSN_TOPIC_TYPE_NORMAL : MQTTSN_TOPIC_TYPE_PREDEFINED; tid[i] = vp_int(1, 0xffff); name[i] = vp_name();
		node[i]->_type = (MQTTSN_topicTypes)typ[i]; node[i]->_topicId = tid[i]; node[i]->_topicName = new std::string(name[i]);
		if (i < n && typ[i] == MQTTSN_TOPIC_TYPE_NORMAL) normals++;
	}
	if (n > 0) T._first = node[0];
	for (int i = 0; i + 1 < CAP; i++) if (i + 1 < n) node[i]->_next = node[i + 1];
}
bool Topic::isMatch(std::string* s) { INSIDE(same(*s, sought)); for (int i = 0; i < CAP; i++) if (this == node[i]) return hits[i]; INSIDE(0); return false; }
static void ids()
{
	for (int i = 0; i < CAP; i++) if (i < n && typ[i] == MQTTSN_TOPIC_TYPE_NORMAL) ASSUME(tid[i] < 0xffff && age(tid[i]) < normals && T._nextTopicId > 0);
 for (int i = 0; i < CAP; i++) for (int j = 0; j < i; j++) if (i < n && typ[i] == MQTTSN_TOPIC_TYPE_NORMAL && typ[j] == MQTTSN_TOPIC_TYPE_NORMAL) ASSUME(tid[i] != tid[j]);
}
static void names() { for (int i = 0; i < CAP; i++) for (int j = 0; j < i; j++) if (i < n) ASSUME(!same(*node[i]->_topicName, name[j])); }
static int find(const char* s) { for (int i = 0; i < CAP; i++) if (i < n && same(*node[i]->_topicName, s)) return i; return -1; }
// topic i is as it was
static bool kept(int i) { return node[i]->_type == typ[i] && node[i]->_topicId == tid[i] && same(*node[i]->_topicName, name[i]); }
// the list holds exactly the first m nodes, in order, then last
static bool listed(Topic* last)
{
	Topic* p = T._first; bool ok = true;
	for (int i = 0; i < CAP; i++) if (i < n) { if (p != node[i]) { ok = false; break; } p = p->_next; }
	return ok && p == last && (!last || last->_next == 0);
}
#define UNCHANGED POST(listed(0)); POST(T._cnt == n); int w = vp_index(n); if (0 <= w && w < n) POST(kept(w))
extern "C" {
// getTopicByName: the topic of that name, or none
void vph_byname()
{
	table(); MQTTSN_topicid id; id.type = MQTTSN_TOPIC_TYPE_NORMAL; id.data.long_.name = vp_name(); id.data.long_.len = strlen(id.data.long_.name);
	int i = find(id.data.long_.name);
	Topic* t = T.getTopicByName(&id);
	if (i < 0) POST(t == 0); else { POST(t != 0); POST(same(*t->_topicName, id.data.long_.name)); }
	UNCHANGED; REACH;
}
// getTopicById: a topic of that type and id, or none
void vph_byid()
{
	table(); MQTTSN_topicid id; id.type = vp_bool() ? MQTTSN_TOPIC_TYPE_NORMAL : MQTTSN_TOPIC_TYPE_PREDEFINED; id.data.id = vp_u16();
	Topic* t = T.getTopicById(&id); bool any = false;
	for (int i = 0; i < CAP; i++) if (i < n && typ[i] == id.type && tid[i] == id.data.id) any = true;
	POST((t != 0) == any); if (t) POST(t->_type == id.type && t->_topicId == id.data.id);
	UNCHANGED; REACH;
}
// match: the first topic whose filter matches the name
void vph_firstmatch()
{
	table(); MQTTSN_topicid id; id.type = MQTTSN_TOPIC_TYPE_NORMAL; id.data.long_.name = vp_name(); id.data.long_.len = strlen(id.data.long_.name); sought = id.data.long_.name;
	for (int i = 0; i < CAP; i++) hits[i] = vp_int(0, 3) == 0;
	Topic* t = T.match(&id), *want = 0; for (int i = CAP - 1; i >= 0; i--) if (i < n && hits[i]) want = node[i];
	POST(t == want); UNCHANGED; REACH;
}
// add of a topic name (REGISTER, SUBSCRIBE): the topic of that name if there is one; else, unless full, a new one with an id no other has
void vph_add()
{
	table(); ids(); MQTTSN_topicid id; id.type = MQTTSN_TOPIC_TYPE_NORMAL; id.data.long_.name = vp_name(); id.data.long_.len = strlen(id.data.long_.name);
	int i = find(id.data.long_.name);
	Topic* t = T.add(&id);
	int w = vp_index(n); if (0 <= w && w < n) POST(kept(w));
	if (i >= 0) { POST(t != 0); POST(same(*t->_topicName, id.data.long_.name)); POST(listed(0)); POST(T._cnt == n); }
	else if (n == MAX_TOPIC_PAR_CLIENT) { POST(t == 0); POST(listed(0)); POST(T._cnt == n); }
	else
	{
		POST(t != 0); POST(same(*t->_topicName, id.data.long_.name)); POST(t->_type == MQTTSN_TOPIC_TYPE_NORMAL);
		POST(t->_topicId != 0 && t->_topicId != 0xffff); POST(T._cnt == n + 1); POST(listed(t));
		if (0 <= w && w < n && typ[w] == MQTTSN_TOPIC_TYPE_NORMAL) { POST(t->_topicId != tid[w]); POST(age(tid[w]) < normals + 1); }
		POST(age(t->_topicId) == 0);
		REACH;
	}
}
// add of a predefined topic: keeps the id given
void vph_predefined()
{
	table(); char* s = vp_name(); int id = vp_int(1, 0xffff), i = find(s);
	Topic* t = T.add(s, id);
	int w = vp_index(n); if (0 <= w && w < n) POST(kept(w));
	if (n == MAX_TOPIC_PAR_CLIENT) { POST(listed(0)); POST(T._cnt == n); }
	else if (i >= 0) { POST(t != 0); POST(same(*t->_topicName, s)); POST(listed(0)); POST(T._cnt == n); }
	else
	{
		POST(t != 0); POST(same(*t->_topicName, s)); POST(t->_type == MQTTSN_TOPIC_TYPE_PREDEFINED); POST(t->_topicId == id); POST(T._cnt == n + 1); POST(listed(t));
		REACH;
	}
}
// add of a topic id that is not a name: refused
void vph_add_other()
{
	table(); MQTTSN_topicid id; id.type = vp_bool() ? MQTTSN_TOPIC_TYPE_SHORT : MQTTSN_TOPIC_TYPE_PREDEFINED; id.data.id = vp_u16();
	POST(T.add(&id) == 0); UNCHANGED; REACH;
}
// eraseNormal (a new session): exactly the predefined topics remain, in their order
void vph_erase()
{
	table();
	T.eraseNormal();
	Topic* p = T._first; int c = 0;
	for (int i = 0; i < CAP; i++) if (i < n && typ[i] != MQTTSN_TOPIC_TYPE_NORMAL) { POST(p == node[i]); POST(kept(i)); p = p->_next; c++; }
	POST(p == 0); POST(T._cnt == c); REACH;
}
// the id counter never gives a reserved id and gives the same one again only after all others
void vph_nextid()
{
	T._nextTopicId = vp_int(0, 0xfffe); int o = T._nextTopicId, i = T.getNextTopicId();
	POST(i != 0 && i != 0xffff); POST(i == T._nextTopicId); POST(o == 0 || i == o % 65534 + 1); REACH;
}
}
