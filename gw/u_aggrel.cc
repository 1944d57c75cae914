// AggregateTopicElement (C20): the clients of a filter, any number of them; the loops over the list by invariant (window.h).
#define OWN_MUTEX
#include "hand.h"
#include "window.h"
static void* vp_block(size_t n) { return malloc(n); }
static int held;
Mutex::Mutex() {} Mutex::~Mutex() {}
void Mutex::lock() { POST(held == 0); held++; } void Mutex::unlock() { POST(held == 1); held--; }
typedef ClientTopicElement E;
static AggregateTopicElement* A; static Client *mine, *other; static bool none;
static void any(E* e) { e->_client = vp_bool() ? mine : other; }
static unsigned long key(E* e) { return e->_client == mine ? 1 : e->_client == other ? 2 : 3; }
static Window<E, &E::_next, &E::_prev, true, any, key> W;
static bool isMine(E* e) { return e->_client == mine; }
extern "C" void vp_loop0__ZN8MQTTSNGW21AggregateTopicElement4findEPNS_6ClientE(void** cur, int again) { W.search(cur, again, isMine); if (!again) none = W.all; }
extern "C" void vp_wloop0__ZN8MQTTSNGW21AggregateTopicElementD2Ev(void** cur, int again) { W.wipe_back(cur, again); }
extern "C" void vp_frame(void*) { POST(false); }
static void element() { A = (AggregateTopicElement*)calloc(1, sizeof(AggregateTopicElement)); mine = raw<Client>(); other = raw<Client>(); W.any(1000000); A->_head = W.first(); A->_tail = W.last(); }
static void same(int gone, E* added) { POST(A->_head == W.first(gone, added) && A->_tail == (added ? added : W.last(gone)) && held == 0); W.is(gone, added); }
extern "C" {
void vph_efind() { element(); E* e = A->find(mine); POST(e == (none ? (E*)0 : W.d) && (none || (e && isMine(e) && e->getClient() == mine))); POST(A->getFirstClientTopicElement() == W.first()); if (e) POST(A->getNextClientTopicElement(e) == W.e && e->getNextClientElement() == W.e); same(-1, 0); REACH; }
void vph_eadd()
{
	element(); E* e = A->add(mine);
	if (W.n > 0 && !none) { POST(e == W.d && isMine(e)); same(-1, 0); } else { POST(W.fresh(e) && isMine(e)); same(-1, e); REACH; }
}
void vph_eerase() { element(); A->eraseClient(mine); if (none) same(-1, 0); else { POST(W.key(W.i) == 1 && vp_gone() == W.d); same(W.i, 0); } REACH; }
void vph_ector() { element(); Topic* t = raw<Topic>(); AggregateTopicElement* a = new AggregateTopicElement(t, mine); POST(a->_topic == t && a->_head && a->_head == a->_tail && isMine(a->_head) && a->_head->_next == 0 && a->_head->_prev == 0 && a->_next == 0 && a->_prev == 0); REACH; }
void vph_edtor() { element(); A->~AggregateTopicElement(); POST(held == 0 && (W.n == 0 || W.all)); REACH; }
}
