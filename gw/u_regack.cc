// WaitREGACKPacketList (C18) of any length: the loops over the list by invariant (window.h).
#include "hand.h"
#include "window.h"
static void* vp_block(size_t n) { return malloc(n); }
typedef waitREGACKPacket E;
static WaitREGACKPacketList* L; static MQTTSNPacket *PK[2], *mine; static int kid; static bool none, some;
static void any(E* e) { e->_msgId = vp_u16(); e->_packet = PK[vp_int(0, 1)]; }
static unsigned long key(E* e) { return e->_msgId | (unsigned long)(e->_packet == PK[0] ? 0 : e->_packet == PK[1] ? 1 : 2) << 16; }
static Window<E, &E::_next, &E::_prev, true, any, key> W;
static bool hit(E* e) { return e->_msgId == kid; }
extern "C" void vp_loop0__ZN8MQTTSNGW20WaitREGACKPacketList9getPacketEt(void** cur, int again) { W.search(cur, again, hit, none, some); if (!again) { none = W.all; some = !none; } }
extern "C" void vp_loop0__ZN8MQTTSNGW20WaitREGACKPacketList5eraseEt(void** cur, int again) { W.search(cur, again, hit, none, some); if (!again) none = W.all; }
extern "C" void vp_wloop0__ZN8MQTTSNGW20WaitREGACKPacketListD2Ev(void** cur, int again) { W.wipe(cur, again); if (!again && W.d) W.d->_packet = 0; }
extern "C" void vp_frame(void*) { POST(false); }
static void list() { L = raw<WaitREGACKPacketList>(); PK[0] = raw<MQTTSNPacket>(); PK[1] = raw<MQTTSNPacket>(); mine = raw<MQTTSNPacket>(); W.any(250); L->_cnt = W.n; L->_first = W.first(); L->_end = W.last(); kid = vp_u16(); }
static void same(int gone, E* added) { POST(L->_first == W.first(gone, added) && L->_end == (added ? added : W.last(gone)) && L->getCount() == W.n - (gone >= 0) + (added != 0)); W.is(gone, added); }
static bool fresh(E* e) { return e && e != W.f && e != W.t && e != W.p && e != W.c && e != W.x && e != W.far; }
extern "C" {
void vph_rget() { list(); MQTTSNPacket* p = L->getPacket(kid); if (none) POST(p == 0); else POST(W.n > 0 && W.i < W.n && (W.key(W.i) & 0xffff) == kid && p == PK[W.key(W.i) >> 16]); same(-1, 0); REACH; }
// a second packet for the same message id replaces the first
void vph_rset()
{
	list(); POST(L->setPacket(mine, kid) == 1); E* e = L->_end; POST(fresh(e) && e->_msgId == kid && e->_packet == mine);
	if (none) same(-1, e); else { POST((W.key(W.i) & 0xffff) == kid); same(W.i, e); } REACH;
}
void vph_rerase() { list(); L->erase(kid); if (none) same(-1, 0); else { POST((W.key(W.i) & 0xffff) == kid); same(W.i, 0); } REACH; }
void vph_rdtor() { list(); L->~WaitREGACKPacketList(); POST(W.all); REACH; }
}
