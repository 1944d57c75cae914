// Contracts of AggregateTopicTable and AggregateTopicElement (C20): the filters of the aggregated clients.
#define OWN_MUTEX
#include "hand.h"
#ifndef NFLT
#define NFLT 2
#define NCLT 3
#endif
static int locked[2]; static const void* mu[2];
Mutex::Mutex() {} Mutex::~Mutex() {}
// a mutex is not taken twice (it is not recursive) and is left free
static int held; void Mutex::lock() { held++; POST(held <= 2); } void Mutex::unlock() { held--; POST(held >= 0); }
static AggregateTopicTable* T; static AggregateTopicElement* E[NFLT]; static Topic* name[NFLT]; static Client* cl[NCLT]; static int nf, nc[NFLT], who[NFLT][NCLT]; static bool hit[NFLT];
bool Topic::isMatch(std::string*) { for (int i = 0; i < NFLT; i++) if (i < nf && this == name[i]) return hit[i]; INSIDE(0); return false; }
static bool same(Topic* a, Topic* b) { return text_is(a->_topicName->data(), a->_topicName->length(), b->_topicName->data()); }
static Topic* topic() { Topic* t = new Topic; t->_type = MQTTSN_TOPIC_TYPE_NORMAL; t->_topicName = new std::string(vp_name()); return t; }
#ifdef VP_CBMC
static void other(int, int) {}
#else
static void other(int i, int k) { for (int j = 0; j < k; j++) if (who[i][j] == who[i][k]) { who[i][k] = (who[i][k] + 1) % NCLT; j = -1; } }	// a client not yet there
#endif
// any table of up to NFLT filters, no two alike, each with 1 to NCLT different clients
static void table()
{
	T = new AggregateTopicTable; for (int i = 0; i < NCLT; i++) cl[i] = raw<Client>(); nf = vp_int(0, NFLT);
	for (int i = 0; i < NFLT; i++)
	{
		name[i] = topic(); hit[i] = vp_bool(); for (int j = 0; j < i; j++) ASSUME(i >= nf || !same(name[i], name[j]));
		nc[i] = vp_int(1, NCLT); E[i] = new AggregateTopicElement(); E[i]->_topic = name[i]; ClientTopicElement* last = 0;
		for (int k = 0; k < NCLT; k++)
		{
			who[i][k] = vp_int(0, NCLT - 1); other(i, k); for (int j = 0; j < k; j++) ASSUME(k >= nc[i] || who[i][k] != who[i][j]);
			ClientTopicElement* c = new ClientTopicElement(cl[who[i][k]]); if (k < nc[i]) { c->_prev = last; if (last) last->_next = c; else E[i]->_head = c; E[i]->_tail = last = c; }
		}
		if (i < nf) { if (i) { E[i]->_prev = E[i - 1]; E[i - 1]->_next = E[i]; } else T->_head = E[0]; T->_tail = E[i]; }
	}
}
static bool had(Topic* t, int w) { bool r = false; for (int i = 0; i < NFLT; i++) if (i < nf && same(name[i], t)) for (int k = 0; k < NCLT; k++) if (k < nc[i] && who[i][k] == w) r = true; return r; }
// the client is, once, at the filter of that name; lists are well formed, no filter is empty or present twice
static bool has(Topic* t, int w)
{
	int filters = 0, found = 0; AggregateTopicElement *e = T->_head, *pe = 0;
	for (int i = 0; i < NFLT + 1; i++) if (e)
	{
		POST(e->_prev == pe); bool it = same(e->_topic, t); if (it) filters++; POST(e->_head != 0);
		ClientTopicElement *c = e->_head, *pc = 0; for (int k = 0; k < NCLT + 1; k++) if (c) { POST(c->_prev == pc); if (it && c->_client == cl[w]) found++; pc = c; c = c->_next; } POST(c == 0 && e->_tail == pc);
		pe = e; e = e->_next;
	}
	POST(e == 0 && T->_tail == pe); POST(filters <= 1 && found <= 1); return found == 1;
}
extern "C" {
void vph_aggr_add()
{
	table(); Topic *t = topic(), *u = vp_bool() ? t : topic(); int w = vp_int(0, NCLT - 1), v = vp_int(0, NCLT - 1); bool was = had(u, v); AG = raw<Aggregater>();
	AggregateTopicElement* e = T->add(t, cl[w]); POST(held == 0); POST(e != 0 && e->_topic != t && same(e->_topic, t)); POST(has(u, v) == (was || (same(t, u) && v == w))); REACH;
}
void vph_aggr_erase()
{
	table(); Topic *t = topic(), *u = vp_bool() ? t : topic(); int w = vp_int(0, NCLT - 1), v = vp_int(0, NCLT - 1); bool was = had(u, v);
	T->erase(t, cl[w]); POST(held == 0); POST(has(u, v) == (was && !(same(t, u) && v == w))); REACH;
}
// the filters that match a name, one after the other
void vph_aggr_match()
{
	table(); Topic* t = topic(); AggregateTopicElement *e = 0, *p = 0; T->getClientElement(t);
	for (int i = 0; i < NFLT; i++) if (i < nf && hit[i]) { e = p ? T->getAggregateTopicElement(t, p) : T->getAggregateTopicElement(t); POST(e == E[i]); if (!p) POST(T->getClientElement(t) == e->_head); p = e; if (!p) break; }
	POST((p ? T->getAggregateTopicElement(t, p) : T->getAggregateTopicElement(t)) == 0); if (!p) POST(T->getClientElement(t) == 0); REACH;
}
void vph_aggr_clients()
{
	table(); ASSUME(nf > 0); int w = vp_int(0, NCLT - 1); bool in = had(name[0], w); ClientTopicElement* c = E[0]->find(cl[w]); POST((c != 0) == in); if (c) POST(c->getClient() == cl[w]); POST(E[0]->getFirstClientTopicElement() == E[0]->_head && E[0]->_head->getNextClientElement() == E[0]->_head->_next); REACH;
}
}
