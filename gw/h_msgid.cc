// Contracts of MessageIdTable and Aggregater's use of it (C19): message ids of aggregated clients.
#include "hand.h"
#include "MQTTSNGWMessageIdTable.h"
#ifndef CAP
#define CAP 3
#endif
static Client* cl[2]; static MessageIdElement* E[CAP + 1]; static int n, ids[CAP], cm[CAP], who[CAP]; static MessageIdTable* T; static int given, last;
// a fresh packet id of the client that is connected to the broker: C18 (ids)
uint16_t Aggregater::msgId() { POST(this == AG); given++; last = vp_int(1, 0xfffe); for (int i = 0; i < CAP; i++) ASSUME(given <= CAP || i >= n || ids[i] != last); return last; }
static void table()
{
	AG = raw<Aggregater>(); T = &AG->_msgIdTable; for (int i = 0; i < 2; i++) cl[i] = raw<Client>(); n = vp_int(0, CAP); T->_cnt = n; T->_maxSize = MAX_MESSAGEID_TABLE_SIZE;
	for (int i = 0; i < CAP; i++) { ids[i] = vp_int(1, 0xfffe); cm[i] = vp_u16(); who[i] = vp_int(0, 1); E[i] = new MessageIdElement(ids[i], cl[who[i]], cm[i]); for (int j = 0; j < i; j++) ASSUME(i >= n || (ids[j] != ids[i] && (cm[j] != cm[i] || who[j] != who[i]))); }
	for (int i = 0; i < CAP; i++) if (i < n) { if (i) E[i]->_prev = E[i - 1]; else T->_head = E[0]; if (i + 1 < n) E[i]->_next = E[i + 1]; else T->_tail = E[i]; }
}
static int length() { int k = 0; MessageIdElement *p = T->_head, *q = 0; for (int i = 0; i < CAP + 2; i++) if (p) { POST(p->_prev == q); q = p; p = p->_next; k++; } POST(p == 0 && T->_tail == q); return k; }
static int idof(int w, int m) { for (int i = 0; i < CAP; i++) if (i < n && who[i] == w && cm[i] == m) return ids[i]; return 0; }
static int at(int id) { for (int i = 0; i < CAP; i++) if (i < n && ids[i] == id) return i; return -1; }
extern "C" {
void vph_msgid_add()
{
	table(); int w = vp_int(0, 1), m = vp_u16(), w2 = vp_int(0, 1), m2 = vp_u16(), old = idof(w, m), r = AG->addMessageIdTable(cl[w], m);
	if (n > MAX_MESSAGEID_TABLE_SIZE || old) { POST(r == 0 && T->_cnt == n && length() == n); }
	else { POST(r == last && r > 0 && at(r) < 0); POST(AG->getMsgId(cl[w], m) == r); POST(T->_cnt == n + 1 && length() == n + 1); REACH; }
	if (r == 0 || w2 != w || m2 != m) POST(AG->getMsgId(cl[w2], m2) == idof(w2, m2));
}
void vph_msgid_get() { table(); int w = vp_int(0, 1), m = vp_u16(); POST(AG->getMsgId(cl[w], m) == idof(w, m)); POST(T->_cnt == n && length() == n); REACH; }
// an answer of the broker: the client and message id its request had; the entry is then free again, unless more answers follow
void vph_msgid_convert()
{
	table(); int id = vp_u16(), k = at(id), w2 = vp_int(0, 1), m2 = vp_u16(); uint16_t m = 7; bool done = vp_bool(); Client* c = AG->convertClient(id, &m, done);
	POST(c == (k < 0 ? (Client*)0 : cl[who[k]]) && m == (k < 0 ? 0 : cm[k])); POST(T->_cnt == n - (k >= 0 && done) && length() == T->_cnt);
	POST(AG->getMsgId(cl[w2], m2) == (done && k >= 0 && who[k] == w2 && cm[k] == m2 ? 0 : idof(w2, m2))); REACH;
}
void vph_msgid_erase() { table(); int id = vp_u16(), k = at(id), w2 = vp_int(0, 1), m2 = vp_u16(); T->erase(id); POST(T->_cnt == n - (k >= 0) && length() == T->_cnt); POST(AG->getMsgId(cl[w2], m2) == (k >= 0 && who[k] == w2 && cm[k] == m2 ? 0 : idof(w2, m2))); REACH; }
}
