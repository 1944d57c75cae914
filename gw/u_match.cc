// Contract of Topic::isMatch (C12) for filters and topic names of any length and any number of levels.
// A topic is a sequence of levels; a level is a token (equal contents, equal tokens).  M(k) is what MQTT 3.1.1 (4.7) says
// of the levels from the k-th on.  The invariant of the loop: the answer is M(k), and the two positions are the beginnings
// of the levels k.  Levels k and k+1 of either topic are seen through a window; k is any number.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWTopic.h"
using namespace MQTTSNGW;
enum { EMPTY, HASH, PLUS, FAR };
static int k, L[2], own; static size_t b[2][2], size[2]; static unsigned tok[2][2];	// 0: filter, 1: name
static size_t len(unsigned t) { return t == EMPTY ? 0 : t < FAR ? 1 : vp_toklen(t); }
static size_t end(int o, int j) { return b[o][j] + len(tok[o][j]); }
static unsigned level(int o, bool last)
{
	unsigned t = (unsigned)vp_int(0, 1000); ASSUME(t <= PLUS || (t > FAR && vp_toklen(t) > 0 && vp_toklen(t) < 70000)); ASSUME(t != HASH || (o == 0 && last)); ASSUME(t != PLUS || o == 0); return t;
}
static void window()
{
	for (int o = 0; o < 2; o++)
	{
		ASSUME(k < L[o]); tok[o][0] = level(o, k == L[o] - 1); tok[o][1] = level(o, k + 1 == L[o] - 1); b[o][0] = k == 0 ? 0 : k + vp_int(0, 70000); b[o][1] = end(o, 0) + 1;
		ASSUME(k == L[o] - 1 ? size[o] == end(o, 0) : k + 1 == L[o] - 1 ? size[o] == end(o, 1) : size[o] > end(o, 1));
	}
}
extern "C" {
// std::string by its contract, for these two strings
unsigned vp_ltok(const char* s) { if (s[0] == 0) return EMPTY; POST(s[1] == 0 && (s[0] == '#' || s[0] == '+')); return s[0] == '#' ? HASH : PLUS; }
size_t vp_lsize(int o, unsigned t) { POST(o < 3); return o == 2 ? len(t) : size[o]; }
size_t vp_lfind(int o, char c, size_t pos)
{
	POST(o < 2 && c == '/'); if (pos > size[o]) return std::string::npos; int j = pos >= b[o][1] && k < L[o] - 1; POST(pos >= b[o][j] && pos <= end(o, j)); return k + j == L[o] - 1 ? std::string::npos : end(o, j);
}
unsigned vp_lsub(int o, unsigned, size_t pos, size_t n)
{
	POST(o < 2); POST(pos <= size[o]); int j = k < L[o] - 1 && pos == b[o][1]; POST(pos == b[o][j]); if (n > size[o] - pos) n = size[o] - pos;
	if (pos + n == end(o, j)) { own = 2; return tok[o][j]; } POST(pos + n > end(o, j)); own = 3; return 0;
}
int vp_lown() { return own; }
int vp_lcmp(int oa, unsigned ta, int ob, unsigned tb) { if (oa == 3 && ob == 2) return 1; POST(oa == 2 && ob == 2); return ta == tb ? 0 : 1; }
void vp_ghost_vp_ltok() {} void vp_ghost_vp_lsize() {} void vp_ghost_vp_lfind() {} void vp_ghost_vp_lsub() {} void vp_ghost_vp_lown() {} void vp_ghost_vp_lcmp() {}
// M(k); 2: it is M(k+1)
static int M()
{
	bool flast = k == L[0] - 1, nlast = k == L[1] - 1, same = tok[0][0] == PLUS || tok[0][0] == tok[1][0];
	if (tok[0][0] == HASH) return 1; if (!same) return 0; if (flast) return nlast; if (nlast) return tok[0][1] == HASH; return 2;
}
void vp_loop0__ZN8MQTTSNGW5Topic7isMatchEPSt6string(size_t* x, size_t* y, int again)
{
	if (again) { POST(M() == 2); POST((*x == b[0][1] && *y == b[1][1])); return; }
	POST(*x == 0 && *y == 0); k = vp_int(0, 70000); window(); *x = b[0][0]; *y = b[1][0];
}
void vph_umatch()
{
	L[0] = vp_int(1, 70000); L[1] = vp_int(1, 70000); size[0] = vp_int(0, 70000); size[1] = vp_int(0, 70000); k = 0; window(); Topic t; std::string f, n; f.own = 0; n.own = 1; t._topicName = &f; t._type = MQTTSN_TOPIC_TYPE_NORMAL;
	bool got = t.isMatch(&n); POST(M() != 2 && got == (M() == 1)); POST(f.own == 0 && n.own == 1 && t._topicName == &f); t._topicName = 0; REACH;
}
}
