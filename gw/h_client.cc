// Contracts of Client and WaitREGACKPacketList (C18).
#include "hand.h"
static void fresh(int type) { gateway(); incoming(type); C->_keepAliveMsec = vp_int(0, 65535) * 1000; C->_waitWillMsgFlg = vp_bool(); }
#ifndef CAP
#define CAP 3
#endif
static waitREGACKPacket* E[CAP]; static MQTTSNPacket* pk[CAP]; static WaitREGACKPacketList* L; static int n, ids[CAP];
static int kept[CAP + 1]; static MQTTSNPacket* gone;
MQTTSNPacket::~MQTTSNPacket() { gone = this; }
// any list of up to CAP entries with different message ids
static void list()
{
	L = new WaitREGACKPacketList; n = vp_int(0, CAP); L->_cnt = n;
	for (int i = 0; i < CAP; i++) { ids[i] = vp_u16(); pk[i] = raw<MQTTSNPacket>(); E[i] = new waitREGACKPacket(pk[i], ids[i]); for (int j = 0; j < i; j++) ASSUME(i >= n || ids[j] != ids[i]); }
	for (int i = 0; i < CAP; i++) if (i < n) { if (i) E[i]->_prev = E[i - 1]; else L->_first = E[0]; if (i + 1 < n) E[i]->_next = E[i + 1]; else L->_end = E[i]; }
}
static int length() { int k = 0; waitREGACKPacket *p = L->_first, *q = 0; for (int i = 0; i < CAP + 2; i++) if (p) { POST(p->_prev == q); q = p; p = p->_next; k++; } POST(p == 0 && L->_end == q); return k; }
static MQTTSNPacket* of(int id) { for (int i = 0; i < CAP; i++) if (i < n && ids[i] == id) return pk[i]; return 0; }
extern "C" {
// the state of a client after each packet from it
void vph_client_status()
{
	fresh(vp_int(0, 0x1d)); int s = C->_status, t = I.type; C->_clientType = (ClientType)vp_int(0, 5); bool w = C->_waitWillMsgFlg; unsigned ka = C->_keepAliveMsec; ASSUME(I.ok);
	C->updateStatus(I.p); int e = s; bool down = false; unsigned restart = 0;
	if (s == Cstat_Active || s == Cstat_Awake || s == Cstat_Asleep) { if (t == MQTTSN_DISCONNECT) { down = I.dur == 0; e = down ? Cstat_Disconnected : Cstat_Asleep; } }
	if (s == Cstat_Awake || s == Cstat_Asleep) { if (t == MQTTSN_CONNECT) e = Cstat_Active; if (t == MQTTSN_PINGREQ) e = Cstat_Awake; if (t == MQTTSN_PINGRESP) e = Cstat_Asleep; }
	POST(C->_status == e); POST(C->_waitWillMsgFlg == (down ? false : w));
	if ((s == Cstat_Disconnected || s == Cstat_Lost) && t == MQTTSN_CONNECT) { ka = I.dur * 1000u; restart = ka + ka / 2; POST(timerStarts == 1 && timerMsec == restart); }
	POST(C->_keepAliveMsec == ka);
	if (s == Cstat_Active && C->_clientType != Ctype_Proxy && (t == MQTTSN_PINGREQ || t == MQTTSN_PUBLISH || t == MQTTSN_SUBSCRIBE || t == MQTTSN_UNSUBSCRIBE || t == MQTTSN_PUBACK || t == MQTTSN_PUBCOMP || t == MQTTSN_PUBREL || t == MQTTSN_PUBREC)) POST(timerStarts == 1 && timerMsec == ka + ka / 2);
	REACH;
}
void vph_client_predicates()
{
	fresh(0); int s = C->_status;
	POST(C->isActive() == (s == Cstat_Active) && C->isSleep() == (s == Cstat_Asleep) && C->isAwake() == (s == Cstat_Awake) && C->isDisconnect() == (s == Cstat_Disconnected) && C->isConnecting() == (s == Cstat_Connecting));
	POST(C->isCleanSession() == (C->_sessionStatus != 0)); POST(C->getTopics() == TC);
	int t = C->_clientType; POST(C->isAggregated() == (t == Ctype_Aggregated) && C->isAdapter() == (t == Ctype_Proxy || t == Ctype_Aggregater) && C->isForwarded() == (t == Ctype_Forwarded) && C->isAggregater() == (t == Ctype_Aggregater) && C->isQoSm1Proxy() == (t == Ctype_Proxy));
	C->_hasPredefTopic = vp_bool(); C->_forwarder = vp_bool() ? (Forwarder*)C : 0; POST(IMP(C->erasable(), C->_sessionStatus && !C->_hasPredefTopic && C->_forwarder == 0));
	int rc = vp_int(0, 3); C->connackSended(rc); POST(C->_status == (rc == 0 ? Cstat_Active : Cstat_Disconnected)); C->connectSended(); POST(C->isConnecting()); REACH;
}
// message ids given to the broker and to the client: never 0, and all ids before one comes again
void vph_client_ids()
{
	fresh(0); int p = C->_packetId, s = C->_snMsgId, a = C->getNextPacketId(), b = C->getNextSnMsgId();
	POST(a > 0 && a < 0xffff && a == (p == 0xfffe ? 1 : p + 1)); POST(b > 0 && b < 256 && b == (s == 255 ? 1 : s + 1)); POST(C->_packetId == a && C->_snMsgId == b); REACH;
}
// client id, will topic and will message are the bytes received, terminated
void vph_client_strings()
{
	fresh(0); int k = vp_int(0, 2), len = vp_len(65535); char* b = (char*)vp_new(len); int x = vp_index(len); ASSUME(len == 0 || (x >= 0 && x < len)); vp_track(x);
	MQTTSNString s; s.cstring = 0; s.lenstring.data = b; s.lenstring.len = len;
	C->_clientId = vp_bool() ? (char*)malloc(3) : 0; C->_willTopic = vp_bool() ? (char*)malloc(3) : 0; C->_willMsg = vp_bool() ? (char*)malloc(3) : 0; char *i0 = C->_clientId, *t0 = C->_willTopic, *m0 = C->_willMsg;
	if (k == 0) C->setClientId(s); else if (k == 1) C->setWillTopic(s); else C->setWillMsg(s);
	char* r = k == 0 ? C->getClientId() : k == 1 ? C->getWillTopic() : C->getWillMsg();
	POST(r != 0 && r != b && vp_readable(r, len + 1)); if (len) POST(r[x] == b[x]); POST(r[len] == 0);
	POST(k == 0 || C->_clientId == i0); POST(k == 1 || C->_willTopic == t0); POST(k == 2 || C->_willMsg == m0); REACH;
}
// messages waiting for REGACK: each is found by its message id, once
void vph_regack_get() { list(); int id = vp_u16(); POST(L->getPacket(id) == of(id)); POST(L->getCount() == n && length() == n); REACH; }
void vph_regack_set()
{
	list(); int id = vp_u16(), other = vp_u16(); MQTTSNPacket *old = of(id), *p = raw<MQTTSNPacket>(); L->setPacket(p, id);
	POST(L->getPacket(id) == p); if (other != id) POST(L->getPacket(other) == of(other)); POST(L->getCount() == n + (old == 0)); POST(length() == L->getCount()); REACH;
}
void vph_regack_erase()
{
	list(); int id = vp_u16(), other = vp_u16(); MQTTSNPacket* old = of(id); gone = 0; L->erase(id); POST(gone == 0 || gone != old);
	POST(L->getPacket(id) == 0); if (other != id) POST(L->getPacket(other) == of(other)); POST(L->getCount() == n - (old != 0)); POST(length() == L->getCount()); REACH;
}
}
