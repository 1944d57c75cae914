// MessageIdTable (C19) for tables of any length: the loops over the list by invariant (window.h).
#include "hand.h"
#include "MQTTSNGWMessageIdTable.h"
#include "window.h"
static void* vp_block(size_t n) { return malloc(n); }
typedef MessageIdElement E;
static Client* cl[2]; static MessageIdTable* T; static Client* kc; static int km, kid, given, last;
static void any(E* e) { e->_msgId = vp_u16(); e->_clientMsgId = vp_u16(); e->_client = cl[vp_int(0, 1)]; }
static unsigned long key(E* e) { return e->_msgId | (unsigned long)e->_clientMsgId << 16 | (unsigned long)(e->_client == cl[1]) << 32; }
static Window<E, &E::_next, &E::_prev, true, any, key> W;
static bool sameMsg(E* e) { return e->_client == kc && e->_clientMsgId == km; }
static bool sameId(E* e) { return e->_msgId == kid; }
static bool none1, none2;	// no element is of the message (kc, km); no element has the id kid
extern "C" void vp_loop0__ZN8MQTTSNGW14MessageIdTable4findEt(void** cur, int again) { W.search(cur, again, sameId); if (!again) none2 = W.all; }
extern "C" void vp_loop0__ZN8MQTTSNGW14MessageIdTable4findEPNS_6ClientEt(void** cur, int again) { W.search(cur, again, sameMsg); if (!again) none1 = W.all; }
// add: ids are asked for until one is free: from one attempt to the next only the id of the new element changes
extern "C" void* vp_newest();
extern "C" void vp_wloop0__ZN8MQTTSNGW14MessageIdTable3addEPNS_10AggregaterEPNS_6ClientEt(int again) { if (again) { POST(!none2); return; } ((E*)vp_newest())->_msgId = vp_u16(); }
extern "C" void vp_frame(void* a) { POST(a == &((E*)vp_newest())->_msgId); }
extern "C" void vp_ghost__ZN8MQTTSNGW10Aggregater5msgIdEv() {}
uint16_t Aggregater::msgId() { POST(this == AG); given++; last = vp_int(1, 0xfffe); kid = last; none2 = false; return last; }
static void table()
{
	AG = raw<Aggregater>(); T = &AG->_msgIdTable; cl[0] = raw<Client>(); cl[1] = raw<Client>(); W.any(MAX_MESSAGEID_TABLE_SIZE + 1);
	T->_cnt = W.n; T->_maxSize = MAX_MESSAGEID_TABLE_SIZE; T->_head = W.obj(0); T->_tail = W.obj(W.n - 1); kc = cl[vp_int(0, 1)]; km = vp_u16(); kid = vp_u16();
}
static void same(int gone, E* added) { POST(T->_head == W.first(gone, added) && T->_tail == (added ? added : W.last(gone)) && T->_cnt == W.n - (gone >= 0) + (added != 0)); W.is(gone, added); }
extern "C" {
// find: the first element with the id (of the message), null only if there is none
void vph_find_id() { table(); E* e = T->find((uint16_t)kid); POST(e == (none2 ? (E*)0 : W.obj(W.i)) && (none2 || (e && e->_msgId == kid))); same(-1, 0); REACH; }
void vph_find_msg() { table(); E* e = T->find(kc, km); POST(e == (none1 ? (E*)0 : W.obj(W.i)) && (none1 || (e && sameMsg(e)))); same(-1, 0); REACH; }
void vph_get() { table(); int r = AG->getMsgId(kc, km); POST(r == (none1 ? 0 : W.obj(W.i)->_msgId)); same(-1, 0); REACH; }
// an answer of the broker: the client and message id its request had; the entry goes, unless more answers follow
void vph_convert()
{
	table(); bool done = vp_bool(); uint16_t m = 7; int n = W.n; Client* c = AG->convertClient(kid, &m, done); unsigned long k = W.key(W.i);
	if (none2) { POST(c == 0 && m == 0); same(-1, 0); }
	else { POST(n > 0 && (k & 0xffff) == kid && m == (k >> 16 & 0xffff) && c == cl[k >> 32]); same(done ? W.i : -1, 0); POST(!done || vp_gone() == W.obj(W.i)); }
	REACH;
}
void vph_erase() { table(); T->erase(kid); if (none2) same(-1, 0); else { POST((W.key(W.i) & 0xffff) == kid); same(W.i, 0); POST(vp_gone() == W.obj(W.i)); } REACH; }
// a new message gets an id no other has; a message in the table keeps its id: nothing is added
void vph_add()
{
	table(); int r = AG->addMessageIdTable(kc, km);
	if (W.n > MAX_MESSAGEID_TABLE_SIZE) { POST(r == 0 && given == 0); same(-1, 0); }
	else if (W.n > 0 && !none1) { POST(r == 0 && sameMsg(W.obj(W.i))); same(-1, 0); }
	else { E* e = T->_tail; POST(r == last && r > 0 && (W.n == 0 || none2) && e->_msgId == r && sameMsg(e)); POST(e != W.f && e != W.t && e != W.p && e != W.c && e != W.x); same(-1, e); REACH; }
}
}
