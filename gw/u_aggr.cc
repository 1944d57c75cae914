// AggregateTopicTable (C20): the filters of the aggregated clients, any number of them; the loops over the list by
// invariant (window.h), the clients of a filter by the contracts of AggregateTopicElement (u_aggrel.cc).
#define OWN_MUTEX
#include "hand.h"
#include "window.h"
static void* vp_block(size_t n) { return malloc(n); }
static int held;
Mutex::Mutex() {} Mutex::~Mutex() {}
void Mutex::lock() { POST(held == 0); held++; } void Mutex::unlock() { POST(held == 1); held--; }
typedef AggregateTopicElement E;
static AggregateTopicTable* T; static Client* mine; static unsigned kname; static bool none, noMatch; static int from;
// the clients of a filter: _head is there if there are any; _tail tells who: mine, others, both
static ClientTopicElement *some, *M, *O, *B;
static bool has(E* e) { return e->_tail == M || e->_tail == B; }
ClientTopicElement* E::find(Client* c) { POST(c == mine); return has(this) ? some : 0; }
ClientTopicElement* E::add(Client* c) { POST(c == mine); if (!has(this)) _tail = _head ? B : M; _head = some; return some; }
void E::eraseClient(Client* c) { POST(c == mine); if (_tail == M) { _head = 0; _tail = 0; } else if (_tail == B) _tail = O; }
E::~AggregateTopicElement() {}
static void any(E* e) { e->_topic = new Topic; e->_topic->_type = MQTTSN_TOPIC_TYPE_NORMAL; e->_topic->_topicName = new std::string(vp_name()); int k = vp_int(0, 2); e->_head = some; e->_tail = k == 0 ? M : k == 1 ? O : B; }
static unsigned name(Topic* t) { return t->_topicName->t; }
static unsigned long key(E* e) { return (e->_head == some) | (e->_tail == M ? 0 : e->_tail == O ? 2 : e->_tail == B ? 4 : 6) | (unsigned long)name(e->_topic) << 32; }
static Window<E, &E::_next, &E::_prev, true, any, key> W;
static bool hit(E* e) { return name(e->_topic) == kname; }
// whether a filter matches the name (C12): any function of the two
static bool matches(Topic* t) { return name(t) & 1; }
static bool match(E* e) { return matches(e->_topic); }
extern "C" void vp_ghost__ZN8MQTTSNGW5Topic7isMatchEPSt6string() {}
bool Topic::isMatch(std::string* s) { POST(s->t == kname); return matches(this); }
extern "C" void vp_loop0__ZN8MQTTSNGW19AggregateTopicTable4findEPNS_5TopicE(void** cur, int again) { W.search(cur, again, hit); if (!again) none = W.all; }
// the search begins at node `from`
extern "C" void vp_loop0__ZN8MQTTSNGW19AggregateTopicTable24getAggregateTopicElementEPNS_5TopicEPNS_21AggregateTopicElementE(void** cur, int again)
{
	if (again) { POST(*cur == W.e && !match(W.d)); return; }
	POST(*cur == (from == 0 ? W.first() : W.e)); W.is(-1, 0); W.i = vp_int(from, W.n); W.look(); *cur = W.d; noMatch = W.i == W.n;
	if (W.i > from) { ASSUME(!match(W.b)); if (from == 0) ASSUME(!match(W.f)); }
}
static Topic* topic() { Topic* t = new Topic; t->_type = MQTTSN_TOPIC_TYPE_NORMAL; t->_topicName = new std::string(vp_name()); kname = name(t); return t; }
static void table() { T = (AggregateTopicTable*)calloc(1, sizeof(AggregateTopicTable)); mine = raw<Client>(); some = raw<ClientTopicElement>(); M = raw<ClientTopicElement>(); O = raw<ClientTopicElement>(); B = raw<ClientTopicElement>(); W.any(1000000); T->_head = W.first(); T->_tail = W.last(); }
static void same(int gone, E* added) { POST(T->_head == W.first(gone, added) && T->_tail == (added ? added : W.last(gone)) && held == 0); W.is(gone, added); }
extern "C" {
void vph_gadd()
{
	table(); Topic* t = topic(); E* e = T->add(t, mine);
	if (none) { POST(W.fresh(e) && e->_topic != t && name(e->_topic) == kname && e->_topic->_type == t->_type && e->_topic->_topicId == t->_topicId && e->_head && e->_head == e->_tail && e->_head->_client == mine); same(-1, e); }
	else { POST(e && e == W.d && hit(e) && has(e) && e->_head == some && e->_tail == ((W.key(W.i) & 6) == 0 ? M : B)); W.rekey(); same(-1, 0); }
	REACH;
}
void vph_gerase()
{
	table(); Topic* t = topic(); T->erase(t, mine); unsigned long k = W.key(W.i);
	if (none) same(-1, 0);
	else if ((k & 6) == 0) { POST(k >> 32 == kname && vp_gone() == W.d); same(W.i, 0); }	// its only client: the filter goes
	else { POST(k >> 32 == kname && hit(W.d) && !has(W.d) && W.d->_head == some && W.d->_tail == O); W.rekey(); same(-1, 0); }
	REACH;
}
// the filters that match a name, one after the other
void vph_gmatch()
{
	table(); Topic* t = topic(); from = 0; E* after = 0; if (W.i < W.n && vp_bool()) { after = W.d; from = W.i + 1; }
	E* e = after ? T->getAggregateTopicElement(t, after) : T->getAggregateTopicElement(t); POST(e == (noMatch ? (E*)0 : W.d) && (noMatch || (e && match(e)))); same(-1, 0); REACH;
}
void vph_gclients() { table(); Topic* t = topic(); from = 0; ClientTopicElement* c = T->getClientElement(t); POST(c == (noMatch ? (ClientTopicElement*)0 : W.d->_head) && (noMatch || match(W.d))); same(-1, 0); REACH; }
}
