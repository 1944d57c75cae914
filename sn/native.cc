// Executable oracle for the MQTT-SN packet library, linked with the real sources.
// Used only to give a failing input for an obligation the verifier rejected:
//   native run FN < key=value lines      one input (replay; missing keys are random)
//   native search FN SEED SECONDS STATE  random inputs; STATE receives the input under test
// Exit 3 and "FAIL <class> <text>" when the oracle disagrees; sanitizers report on their own.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <functional>
#include <iostream>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
extern "C" {
#include "MQTTSNPacket.h"
__attribute__((weak)) int MQTTSNSerialize_publishLength(int payloadlen, MQTTSN_topicid topic, int qos);
__attribute__((weak)) int MQTTSNSerialize_registerLength(int topicnamelen);
__attribute__((weak)) int MQTTSNSerialize_subscribeLength(MQTTSN_topicid* topicFilter);
__attribute__((weak)) int MQTTSNSerialize_unsubscribeLength(MQTTSN_topicid* topicFilter);
__attribute__((weak)) int MQTTSNSerialize_connectLength(MQTTSNPacket_connectData* options);
__attribute__((weak)) int MQTTSNSerialize_disconnectLength(int duration);
int MQTTSNDeserialize_advertise(unsigned char*, unsigned short*, unsigned char*, int);
}
using namespace std;
typedef unsigned char u8; typedef unsigned short u16; typedef vector<u8> Bytes;
static mt19937_64 rng; static map<string, long> hi; static map<string, Bytes> hb; static string rec; static char* state; static bool replay;
static unsigned long R() { return rng(); }
static void note(const string& s) { rec += s + "\n"; if (state) { size_t n = min(rec.size(), (size_t)(1 << 20) - 1); memcpy(state, rec.data(), n); state[n] = 0; } }
static void fail(const char* cls, const char* what) { static const char* only = getenv("VP_CLS"); if (only && strcmp(only, cls)) return; printf("FAIL %s %s\n", cls, what); fflush(stdout); _exit(3); }
#define CHECK(cls, c) do { if (!(c)) fail(cls, #c); } while (0)
static long I(const char* n, long lo, long hgh)
{
	long v; auto it = hi.find(n);
	if (it != hi.end() && it->second >= lo && it->second <= hgh) v = it->second;
	else switch (R() % 5) { case 0: v = lo; break; case 1: v = hgh; break; case 2: v = min(hgh, lo + (long)(R() % 12)); break; default: v = lo + R() % (hgh - lo + 1); }
	note(string(n) + "=" + to_string(v)); return v;
}
static int len()
{
	switch (R() % 12) { case 0: return 0; case 1: case 2: case 3: return R() % 24; case 4: case 5: case 6: return 236 + R() % 36; case 7: return 120 + R() % 16;
		case 8: return R() % 600; case 9: return 1000 + R() % 60; case 10: return R() % 4 ? R() % 300 : 65400 + R() % 124; default: return R() % 270; }
}
static string hex(const Bytes& b) { string s; char t[3]; for (u8 c : b) { sprintf(t, "%02x", c); s += t; } return s; }
// bytes named n; the verifier may have fixed its length (key lenkey) or content
static Bytes S(const char* n, const char* lenkey, int maxlen = 65500, bool text = false)
{
	Bytes b; auto it = hb.find(n); auto il = hi.find(lenkey);
	if (it != hb.end()) b = it->second;
	else { int l = il != hi.end() && il->second >= 0 && il->second <= 65500 ? il->second : len(); if (l > maxlen) l = maxlen; b.resize(l); bool ab = R() % 2;
		for (auto& c : b) { c = text || ab ? "/+#ab$\x7f\xc3"[R() % 8] : R(); if (text && !c) c = 'x'; } }
	note(string(n) + "=0x" + hex(b)); return b;
}
struct Buf { u8* p; int n; Buf(int n) : n(n) { p = (u8*)malloc(n); memset(p, 0xEE, n); } Buf(const Bytes& b) : n(b.size()) { p = (u8*)malloc(n); if (n) memcpy(p, b.data(), n); } ~Buf() { free(p); } operator u8*() { return p; } };
static Bytes packet(const Bytes& body) { int t = body.size() + 1; Bytes r; if (t > 255) { t += 2; r = { 1, (u8)(t >> 8), (u8)t }; } else r = { (u8)t }; r.insert(r.end(), body.begin(), body.end()); return r; }
static void put(Bytes& b, int v) { b.push_back(v >> 8); b.push_back(v); }
static void put(Bytes& b, const Bytes& s) { b.insert(b.end(), s.begin(), s.end()); }
static void put1(Bytes& b, int v) { b.push_back(v); }
// ------------------------------------------------------------ serializers
static void ser(const Bytes& body, function<int(u8*, int)> f)
{
	Bytes want = packet(body); if (want.size() > 65535) return;
	int total = want.size(); long bl;
	switch (R() % 4) { case 0: bl = total; break; case 1: bl = total - 1 - (int)(R() % 3); break; case 2: bl = total + R() % 40; break; default: bl = R() % (total + 3); }
	if (bl < 0) bl = 0;
	if (hi.count("buflen") && hi["buflen"] >= 0 && hi["buflen"] < 200000) bl = hi["buflen"];
	note("buflen=" + to_string(bl));
	u8* raw = (u8*)malloc(bl + 0); Buf canary(0);
	memset(raw, 0xEE, bl);
	int rc = f(raw, bl);
	if (total > bl) { CHECK("bounds", rc == MQTTSNPACKET_BUFFER_TOO_SHORT); for (long i = 0; i < bl; i++) CHECK("bounds", raw[i] == 0xEE); }
	else { CHECK("bounds", rc == total); for (long i = total; i < bl; i++) CHECK("bounds", raw[i] == 0xEE); CHECK("exact", memcmp(raw, want.data(), total) == 0); }
	free(raw);
}
struct Str { Bytes b; char* c; MQTTSNString s; };
static void mkstr(Str& x, const char* n, const char* lk)
{
	bool cs = I("cstring", 0, 1); x.b = S(n, cs ? "vg_slen" : lk, 65400, cs); x.c = (char*)malloc(x.b.size() + 1); memcpy(x.c, x.b.data(), x.b.size()); x.c[x.b.size()] = 0;
	if (cs) { for (auto& c : x.b) if (!c) { c = 'q'; } memcpy(x.c, x.b.data(), x.b.size()); x.s.cstring = x.c; x.s.lenstring.len = I("otherlen", 0, 40); x.s.lenstring.data = x.c; }
	else { char* e = (char*)malloc(x.b.size()); memcpy(e, x.b.data(), x.b.size()); free(x.c); x.c = e; x.s.cstring = NULL; x.s.lenstring.len = x.b.size(); x.s.lenstring.data = e; }
}
struct Top { MQTTSN_topicid t; Bytes name; int kind; char* mem; bool lng; };
static void mktopic(Top& x, bool filter, int qos)
{
	memset(&x.t, 0xA5, sizeof x.t);
	x.kind = I("type", 0, 2); x.t.type = (MQTTSN_topicTypes)x.kind; x.mem = NULL; x.lng = x.kind == 0 && (filter || qos == 3);
	if (x.lng) { x.name = S("name", "len", 65400); x.mem = (char*)malloc(x.name.size()); memcpy(x.mem, x.name.data(), x.name.size()); x.t.data.long_.name = x.mem; x.t.data.long_.len = x.name.size(); }
	else { int v = I("id", 0, 65535); if (x.kind == 2) { x.t.data.short_name[0] = v >> 8; x.t.data.short_name[1] = v; } else x.t.data.id = v; x.name = { (u8)(v >> 8), (u8)v }; }
}
// ------------------------------------------------------------ deserializers
struct P { Bytes b; int h, L; bool fits; int type, body; u8 at(int i) const { return b[h + 1 + i]; } int in(int i) const { return at(i) << 8 | at(i + 1); } int rest(int i) const { return L - h - 1 - i; } const u8* ptr; u8* pos(int i) const { return (u8*)ptr + h + 1 + i; } };
static P recv(int type, int need, int alt = -1)
{
	P p; Bytes b;
	if (hb.count("buf")) { b = hb["buf"]; if (hi.count("buflen") && hi["buflen"] >= 0 && hi["buflen"] < 200000) { size_t o = b.size(); b.resize(hi["buflen"]); for (size_t i = o; i < b.size(); i++) b[i] = R(); } }
	else if (R() % 12 == 0) { b.resize(R() % 12); for (auto& c : b) c = R() % 3 ? R() % 12 : R(); }
	else
	{
		int l = need + (R() % 3 ? (int)(R() % 9) - 4 : len()); if (l < 1) l = 1; Bytes body(l); for (auto& c : body) c = R() % 3 ? R() : R() % 5;
		body[0] = R() % 20 ? (alt >= 0 && R() % 2 ? alt : type) : R() % 40;
		if (type == MQTTSN_CONNECT && l > 2 && R() % 10) body[2] = 1;
		if (type == MQTTSN_PUBLISH && l > 6 && R() % 2) { body[1] = (body[1] & 0x9c) | 0x60; int t = R() % 4 ? R() % (l - 5) : R() % 300; body[2] = t >> 8; body[3] = t; }
		b = packet(body);
		if (R() % 3 == 0 && b[0] != 1) { int t = l + 3; Bytes c = { 1, (u8)(t >> 8), (u8)t }; put(c, body); b = c; }
		switch (R() % 8) { case 0: { int d = (int)(R() % 7) - 3; if (b[0] == 1 && b.size() > 2) b[2] += d; else b[0] += d; break; }
			case 1: b.resize(R() % (b.size() + 1)); break; case 2: for (int i = R() % 20; i >= 0; i--) b.push_back(R()); break; case 3: b[0] = R(); break; case 4: b.resize(max(1, (int)b.size() - 1 - (int)(R() % 3))); break; default: break; }
	}
	note("buf=0x" + hex(b)); note("buflen=" + to_string(b.size()));
	p.b = b; int n = b.size(); p.h = n < 1 ? 0 : b[0] != 1 ? 1 : n < 3 ? 0 : 3; p.L = p.h == 0 ? 0 : p.h == 1 ? b[0] : b[1] << 8 | b[2];
	p.fits = p.h && p.L <= n && p.L - p.h >= need; p.type = p.h && p.h < n ? b[p.h] : -1; p.body = p.L - p.h - 1;
	return p;
}
static void inside(const P& p, const void* q, long l) { CHECK("bounds", l >= 0); if (l > 0) CHECK("bounds", (u8*)q >= p.ptr && (u8*)q + l <= p.ptr + p.b.size()); }
static void strres(const P& p, const MQTTSNString& s, int i) { CHECK("bounds", s.cstring == NULL); inside(p, s.lenstring.data, s.lenstring.len); CHECK("exact", s.lenstring.len == p.rest(i)); if (s.lenstring.len > 0) CHECK("exact", (u8*)s.lenstring.data == p.pos(i)); }
static void poison(void* p, size_t n) { memset(p, 0x5A, n); }
#define DES(T, N, CALL) P p = recv(T, N); Buf m(p.b); p.ptr = m; int n = p.b.size(); (void)n; bool ok = p.fits && p.type == T; int rc = CALL; CHECK("exact", (rc == 1) == ok); if (rc != 1) return;
static map<string, function<void()>> T;
#define FN(name) T["MQTTSN" #name] = []()
static void filterres(const P& p, const MQTTSN_topicid& t)
{
	CHECK("exact", (int)t.type == (p.at(0) & 3));
	if (t.type == 0) { inside(p, t.data.long_.name, t.data.long_.len); CHECK("exact", t.data.long_.len == p.rest(3) && (u8*)t.data.long_.name == p.pos(3)); }
	else if (t.type == 1) CHECK("exact", t.data.id == p.in(3));
	else CHECK("exact", (u8)t.data.short_name[0] == p.at(3) && (u8)t.data.short_name[1] == p.at(4));
}
static int gn_ret; static Bytes gn_data; static int gn_calls;
static int getfn(u8* b, int n) { gn_calls++; int l = min<int>(n, gn_data.size()); memcpy(b, gn_data.data(), l); return gn_ret < 0 ? gn_ret : l; }
static void init()
{
	FN(Packet_len) { int l = I("length", 0, 65532); CHECK("exact", MQTTSNPacket_len(l) == (l >= 255 ? l + 3 : l + 1)); };
	FN(Packet_encode) { int l = I("length", 0, 65535); if (R() % 3 == 0 && !replay) { l = 250 + R() % 10; note("length=" + to_string(l)); } Buf b(l > 255 ? 3 : 1); int rc = MQTTSNPacket_encode(b, l); CHECK("exact", rc == (l > 255 ? 3 : 1)); CHECK("exact", l > 255 ? b[0] == 1 && (b[1] << 8 | b[2]) == l : b[0] == l); };
	FN(Packet_decode) { P p = recv(0, 1); Buf m(p.b); int v = 77; int rc = MQTTSNPacket_decode(m, p.b.size(), &v); CHECK("exact", rc == (p.h ? p.h : -1)); if (p.h) CHECK("exact", v == p.L); };
	FN(Packet_read_nb) { P p = recv(I("t", 0, 29), 1); Buf m(p.b); int n = p.b.size(); int rc = MQTTSNPacket_read_nb(m, n); CHECK("exact", rc == (p.h && p.L == n && p.h < n ? p.type : -1)); };
	FN(Packet_read) { P p = recv(I("t", 0, 29), 1); int cap = p.b.size() + I("spare", 0, 5); Buf m(cap); gn_data = p.b; gn_ret = I("getret", -2, 3); int rc = MQTTSNPacket_read(m, cap, getfn); int n = gn_ret < 0 ? gn_ret : (int)p.b.size();
		CHECK("exact", rc == (n >= 2 && p.h && p.L == n && p.h < n ? p.type : -1)); };
	FN(Deserialize_publish) { P p = recv(MQTTSN_PUBLISH, 6); Buf m(p.b); p.ptr = m; int n = p.b.size(); u8 d, r, *pl; int q, pn; u16 id; MQTTSN_topicid t; poison(&t, sizeof t);
		bool ok = p.fits && p.type == MQTTSN_PUBLISH; bool lng = ok && (p.at(0) & 0x63) == 0x60; if (lng && p.in(1) > p.rest(5)) ok = false;
		int rc = MQTTSNDeserialize_publish(&d, &q, &r, &id, &t, &pl, &pn, m, n); if (rc == 1) { inside(p, pl, pn); if (t.type == 0 && q == 3) inside(p, t.data.long_.name, t.data.long_.len); }
		CHECK("exact", (rc == 1) == ok); if (rc != 1) return; int f = p.at(0);
		CHECK("exact", d == f >> 7); CHECK("exact", q == (f >> 5 & 3)); CHECK("exact", r == (f >> 4 & 1)); CHECK("exact", id == p.in(3)); CHECK("exact", (int)t.type == (f & 3));
		int o = 5; if (lng) { CHECK("exact", t.data.long_.len == p.in(1) && (u8*)t.data.long_.name == p.pos(5)); o += p.in(1); } else if (t.type < 2) CHECK("exact", t.data.id == p.in(1)); else if (t.type == 2) CHECK("exact", (u8)t.data.short_name[0] == p.at(1) && (u8)t.data.short_name[1] == p.at(2));
		CHECK("exact", pn == p.rest(o)); CHECK("exact", pl == p.pos(o)); };
	FN(Deserialize_puback) { u16 a, b; u8 c; DES(MQTTSN_PUBACK, 6, MQTTSNDeserialize_puback(&a, &b, &c, m, n)) CHECK("exact", a == p.in(0) && b == p.in(2) && c == p.at(4)); };
	FN(Deserialize_ack) { P p = recv(MQTTSN_PUBREL, 3, R() % 2 ? MQTTSN_PUBREC : MQTTSN_PUBCOMP); Buf m(p.b); u8 t; u16 a; int rc = MQTTSNDeserialize_ack(&t, &a, m, p.b.size());
		CHECK("exact", (rc == 1) == (p.fits && (p.type == MQTTSN_PUBREL || p.type == MQTTSN_PUBREC || p.type == MQTTSN_PUBCOMP))); if (rc == 1) CHECK("exact", t == p.type && a == p.in(0)); };
	FN(Deserialize_register) { u16 a, b; MQTTSNString s; poison(&s, sizeof s); DES(MQTTSN_REGISTER, 5, MQTTSNDeserialize_register(&a, &b, &s, m, n)) CHECK("exact", a == p.in(0) && b == p.in(2)); strres(p, s, 4); };
	FN(Deserialize_regack) { u16 a, b; u8 c; DES(MQTTSN_REGACK, 6, MQTTSNDeserialize_regack(&a, &b, &c, m, n)) CHECK("exact", a == p.in(0) && b == p.in(2) && c == p.at(4)); };
	FN(Serialize_publishLength) { Top t; int q = I("qos", 0, 3); mktopic(t, false, q); int n = I("payloadlen", 0, 60000); CHECK("exact", MQTTSNSerialize_publishLength(n, t.t, q) == 6 + n + (t.lng ? (int)t.name.size() : 0)); free(t.mem); };
	FN(Serialize_publish) { Top t; int q = I("qos", 0, 3); mktopic(t, false, q); int d = I("dup", 0, 1), r = I("retained", 0, 1), id = I("packetid", 0, 65535); Bytes pl = S("payload", "payloadlen"); Buf pb(pl);
		Bytes b = { MQTTSN_PUBLISH, (u8)(d << 7 | q << 5 | r << 4 | t.kind) }; if (t.lng) put(b, (int)t.name.size()); else put(b, t.name); put(b, id); if (t.lng) put(b, t.name); put(b, pl);
		ser(b, [&](u8* p, int n) { return MQTTSNSerialize_publish(p, n, d, q, r, id, t.t, pb, pl.size()); }); free(t.mem); };
	FN(Serialize_puback) { int t = I("topicid", 0, 65535), i = I("packetid", 0, 65535), c = I("returncode", 0, 255); Bytes b = { MQTTSN_PUBACK }; put(b, t); put(b, i); put1(b, c); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_puback(p, n, t, i, c); }); };
	FN(Serialize_regack) { int t = I("topicid", 0, 65535), i = I("packetid", 0, 65535), c = I("return_code", 0, 255); Bytes b = { MQTTSN_REGACK }; put(b, t); put(b, i); put1(b, c); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_regack(p, n, t, i, c); }); };
#define ID3(name, TY) FN(Serialize_##name) { int i = I("packetid", 0, 65535); Bytes b = { TY }; put(b, i); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_##name(p, n, i); }); };
	ID3(pubrec, MQTTSN_PUBREC) ID3(pubrel, MQTTSN_PUBREL) ID3(pubcomp, MQTTSN_PUBCOMP) ID3(unsuback, MQTTSN_UNSUBACK)
	FN(Serialize_registerLength) { int l = I("topicnamelen", 0, 65535); CHECK("exact", MQTTSNSerialize_registerLength(l) == l + 5); };
	FN(Serialize_register) { int t = I("topicid", 0, 65535), i = I("packetid", 0, 65535); Str s; mkstr(s, "topicname", "topicname.len"); Bytes b = { MQTTSN_REGISTER }; put(b, t); put(b, i); put(b, s.b); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_register(p, n, t, i, &s.s); }); free(s.c); };
	FN(Serialize_subscribeLength) { Top t; mktopic(t, true, 0); CHECK("exact", MQTTSNSerialize_subscribeLength(&t.t) == 4 + (int)t.name.size()); free(t.mem); };
	FN(Serialize_unsubscribeLength) { Top t; mktopic(t, true, 0); CHECK("exact", MQTTSNSerialize_unsubscribeLength(&t.t) == 4 + (int)t.name.size()); free(t.mem); };
	FN(Serialize_subscribe) { Top t; mktopic(t, true, 0); int d = I("dup", 0, 1), q = I("qos", 0, 3), i = I("packetid", 0, 65535); Bytes b = { MQTTSN_SUBSCRIBE, (u8)(d << 7 | q << 5 | t.kind) }; put(b, i); put(b, t.name); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_subscribe(p, n, d, q, i, &t.t); }); free(t.mem); };
	FN(Serialize_unsubscribe) { Top t; mktopic(t, true, 0); int i = I("packetid", 0, 65535); Bytes b = { MQTTSN_UNSUBSCRIBE, (u8)t.kind }; put(b, i); put(b, t.name); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_unsubscribe(p, n, i, &t.t); }); free(t.mem); };
	FN(Deserialize_subscribe) { P p = recv(MQTTSN_SUBSCRIBE, 4); Buf m(p.b); p.ptr = m; u8 d; int q; u16 i; MQTTSN_topicid t; poison(&t, sizeof t); bool ok = p.fits && p.type == MQTTSN_SUBSCRIBE; if (ok && ((p.at(0) & 3) == 3 || ((p.at(0) & 3) && p.rest(3) < 2))) ok = false;
		int rc = MQTTSNDeserialize_subscribe(&d, &q, &i, &t, m, p.b.size()); CHECK("exact", (rc == 1) == ok); if (rc != 1) return; CHECK("exact", d == p.at(0) >> 7 && q == (p.at(0) >> 5 & 3) && i == p.in(1)); filterres(p, t); };
	FN(Deserialize_unsubscribe) { P p = recv(MQTTSN_UNSUBSCRIBE, 4); Buf m(p.b); p.ptr = m; u16 i; MQTTSN_topicid t; poison(&t, sizeof t); bool ok = p.fits && p.type == MQTTSN_UNSUBSCRIBE; if (ok && ((p.at(0) & 3) == 3 || ((p.at(0) & 3) && p.rest(3) < 2))) ok = false;
		int rc = MQTTSNDeserialize_unsubscribe(&i, &t, m, p.b.size()); CHECK("exact", (rc == 1) == ok); if (rc != 1) return; CHECK("exact", i == p.in(1)); filterres(p, t); };
	FN(Serialize_suback) { int q = I("qos", 0, 3), t = I("topicid", 0, 65535), i = I("packetid", 0, 65535), c = I("returncode", 0, 255); Bytes b = { MQTTSN_SUBACK, (u8)(q << 5) }; put(b, t); put(b, i); put1(b, c); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_suback(p, n, q, t, i, c); }); };
	FN(Deserialize_suback) { int q; u16 a, b; u8 c; DES(MQTTSN_SUBACK, 7, MQTTSNDeserialize_suback(&q, &a, &b, &c, m, n)) CHECK("exact", q == (p.at(0) >> 5 & 3) && a == p.in(1) && b == p.in(3) && c == p.at(5)); };
	FN(Deserialize_unsuback) { u16 a; DES(MQTTSN_UNSUBACK, 3, MQTTSNDeserialize_unsuback(&a, m, n)) CHECK("exact", a == p.in(0)); };
	FN(Serialize_advertise) { int g = I("gatewayid", 0, 255), d = I("duration", 0, 65535); Bytes b = { MQTTSN_ADVERTISE, (u8)g }; put(b, d); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_advertise(p, n, g, d); }); };
	FN(Deserialize_advertise) { u8 g; u16 d; DES(MQTTSN_ADVERTISE, 4, MQTTSNDeserialize_advertise(&g, &d, m, n)) CHECK("exact", g == p.at(0) && d == p.in(1)); };
	FN(Serialize_searchgw) { int r = I("radius", 0, 255); Bytes b = { MQTTSN_SEARCHGW, (u8)r }; ser(b, [&](u8* p, int n) { return MQTTSNSerialize_searchgw(p, n, r); }); };
	FN(Deserialize_searchgw) { u8 r; DES(MQTTSN_SEARCHGW, 2, MQTTSNDeserialize_searchgw(&r, m, n)) CHECK("exact", r == p.at(0)); };
	FN(Serialize_gwinfo) { int g = I("gatewayid", 0, 255); Bytes a = S("gatewayaddress", "gatewayaddress_len"); Buf ab(a); bool null = I("null", 0, 3) == 0; Bytes b = { MQTTSN_GWINFO, (u8)g }; if (!null) put(b, a); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_gwinfo(p, n, g, a.size(), null ? NULL : ab.p); }); };
	FN(Deserialize_gwinfo) { u8 g, *a; u16 l; DES(MQTTSN_GWINFO, 2, MQTTSNDeserialize_gwinfo(&g, &l, &a, m, n)) inside(p, a, l); CHECK("exact", g == p.at(0) && l == p.rest(1)); CHECK("exact", a == (l ? p.pos(1) : NULL)); };
	FN(Serialize_connectLength) { MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer; Str s; mkstr(s, "clientID", "len"); o.clientID = s.s; CHECK("exact", MQTTSNSerialize_connectLength(&o) == 5 + (int)s.b.size()); free(s.c); };
	FN(Serialize_connect) { MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer; Str s; mkstr(s, "clientID", "len"); o.clientID = s.s; o.duration = I("duration", 0, 65535); o.cleansession = I("cleansession", 0, 1); o.willFlag = I("willFlag", 0, 1);
		Bytes b = { MQTTSN_CONNECT, (u8)(o.willFlag << 3 | o.cleansession << 2), 1 }; put(b, o.duration); put(b, s.b); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_connect(p, n, &o); }); free(s.c); };
	FN(Deserialize_connect) { P p = recv(MQTTSN_CONNECT, 5); Buf m(p.b); p.ptr = m; MQTTSNPacket_connectData d; poison(&d, sizeof d); int rc = MQTTSNDeserialize_connect(&d, m, p.b.size()); CHECK("exact", (rc == 1) == (p.fits && p.type == MQTTSN_CONNECT && p.at(1) == 1)); if (rc != 1) return;
		CHECK("exact", d.cleansession == (p.at(0) >> 2 & 1) && d.willFlag == (p.at(0) >> 3 & 1) && d.duration == p.in(2)); strres(p, d.clientID, 4); };
#define RC(name, TY, arg) FN(Serialize_##name) { int c = I(arg, 0, 255); Bytes b = { TY, (u8)c }; ser(b, [&](u8* p, int n) { return MQTTSNSerialize_##name(p, n, c); }); }; \
	FN(Deserialize_##name) { int c; DES(TY, 2, MQTTSNDeserialize_##name(&c, m, n)) CHECK("exact", c == p.at(0)); };
	RC(connack, MQTTSN_CONNACK, "connack_rc") RC(willtopicresp, MQTTSN_WILLTOPICRESP, "resp_rc") RC(willmsgresp, MQTTSN_WILLMSGRESP, "resp_rc")
	FN(Serialize_disconnectLength) { int d = I("duration", -5, 65535); CHECK("exact", MQTTSNSerialize_disconnectLength(d) == (d > 0 ? 3 : 1)); };
	FN(Serialize_disconnect) { int d = I("duration", -5, 65535); Bytes b = { MQTTSN_DISCONNECT }; if (d > 0) put(b, d); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_disconnect(p, n, d); }); };
	FN(Deserialize_disconnect) { P p = recv(MQTTSN_DISCONNECT, 1); Buf m(p.b); int d = I("old", -7, 99999), old = d; int rc = MQTTSNDeserialize_disconnect(&d, m, p.b.size()); CHECK("exact", (rc == 1) == (p.fits && p.type == MQTTSN_DISCONNECT && (p.rest(0) == 0 || p.rest(0) == 2))); if (rc == 1) CHECK("exact", d == (p.rest(0) ? p.in(0) : old)); };
#define NB(name, TY) FN(Serialize_##name) { ser(Bytes{ TY }, [&](u8* p, int n) { return MQTTSNSerialize_##name(p, n); }); };
	NB(willtopicreq, MQTTSN_WILLTOPICREQ) NB(willmsgreq, MQTTSN_WILLMSGREQ) NB(pingresp, MQTTSN_PINGRESP)
#define NB1(name, TY, one) FN(Deserialize_##name) { P p = recv(TY, 1); Buf m(p.b); int rc = MQTTSNDeserialize_##name(m, p.b.size()); CHECK("exact", (rc == 1) == (p.fits && p.type == TY && (!one || p.h == 1))); };
	NB1(willtopicreq, MQTTSN_WILLTOPICREQ, 1) NB1(willmsgreq, MQTTSN_WILLMSGREQ, 1) NB1(pingresp, MQTTSN_PINGRESP, 0)
	FN(Serialize_pingreq) { Str s; mkstr(s, "clientid", "len"); Bytes b = { MQTTSN_PINGREQ }; put(b, s.b); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_pingreq(p, n, s.s); }); free(s.c); };
	FN(Deserialize_pingreq) { MQTTSNString s; poison(&s, sizeof s); DES(MQTTSN_PINGREQ, 1, MQTTSNDeserialize_pingreq(&s, m, n)) strres(p, s, 0); };
#define WT(name, TY) FN(Serialize_##name) { Str s; mkstr(s, "willTopic", "len"); int q = I("willQoS", 0, 3), r = I("willRetain", 0, 1); Bytes b = { TY, (u8)(q << 5 | r << 4) }; put(b, s.b); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_##name(p, n, q, r, s.s); }); free(s.c); }; \
	FN(Deserialize_##name) { int q; u8 r; MQTTSNString s; poison(&s, sizeof s); DES(TY, 2, MQTTSNDeserialize_##name(&q, &r, &s, m, n)) CHECK("exact", q == (p.at(0) >> 5 & 3) && r == (p.at(0) >> 4 & 1)); strres(p, s, 1); };
	WT(willtopic, MQTTSN_WILLTOPIC) WT(willtopicupd, MQTTSN_WILLTOPICUPD)
#define WM(name, TY) FN(Serialize_##name) { Str s; mkstr(s, "willMsg", "len"); Bytes b = { TY }; put(b, s.b); ser(b, [&](u8* p, int n) { return MQTTSNSerialize_##name(p, n, s.s); }); free(s.c); }; \
	FN(Deserialize_##name) { MQTTSNString s; poison(&s, sizeof s); DES(TY, 1, MQTTSNDeserialize_##name(&s, m, n)) strres(p, s, 0); };
	WM(willmsg, MQTTSN_WILLMSG) WM(willmsgupd, MQTTSN_WILLMSGUPD)
	FN(Packet_name) { int c = I("code", -300, 300); const char* s = MQTTSNPacket_name(c); CHECK("bounds", s != NULL && strlen(s) < 40); };
#undef FN
}
static void hint(const string& l)
{
	size_t e = l.find('='); if (e == string::npos) return; string k = l.substr(0, e), v = l.substr(e + 1);
	if (v.substr(0, 2) == "0x") { Bytes b; for (size_t i = 2; i + 1 < v.size(); i += 2) b.push_back(strtol(v.substr(i, 2).c_str(), 0, 16)); hb[k] = b; } else hi[k] = atol(v.c_str());
}
int main(int argc, char** argv)
{
	init();
	if (argc >= 3 && !strcmp(argv[1], "run"))
	{
		if (!T.count(argv[2])) return 9;
		replay = true; string l; rng.seed(1);
		while (getline(cin, l)) hint(l);
		T[argv[2]](); puts("OK"); return 0;
	}
	if (argc >= 6 && !strcmp(argv[1], "search"))
	{
		if (!T.count(argv[2])) return 9;
		int fd = open(argv[5], O_RDWR | O_CREAT | O_TRUNC, 0600); if (ftruncate(fd, 1 << 20)) return 8; state = (char*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		rng.seed(strtoul(argv[3], 0, 10)); time_t end = time(0) + atoi(argv[4]); long n = 0; auto f = T[argv[2]];
		map<string, long> hi0; map<string, Bytes> hb0; { string l; while (getline(cin, l)) hint(l); } hi0 = hi; hb0 = hb;
		// inputs from the verifier's counterexample first, all or some of them, then random ones
		while (time(0) < end) for (int i = 0; i < 64; i++) { hi.clear(); hb.clear(); if (n % 3 == 0) { for (auto& x : hi0) if (R() % 4) hi.insert(x); for (auto& x : hb0) if (R() % 4) hb.insert(x); if (n == 0) hi = hi0, hb = hb0; } rec.clear(); f(); n++; }
		printf("OK %ld\n", n); return 0;
	}
	for (auto& t : T) puts(t.first.c_str());
}
