// Contracts of Process::getParam (C28): what gateway.conf says, any number of lines.
#include "vp.h"
#include <ctype.h>
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWProcess.h"
using namespace MQTTSNGW;
#ifndef LL
#define LL 5
#endif
#ifndef NKEY
#define NKEY 2
#endif
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
static char line[LL + 2], key[NKEY + 1]; static int ln, keyLen, opened, closed, v0, v1; static bool hit, there, ended; static FILE* F1; static int lines;
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// the line is KEY=value; value is line[v0..v1) without the blanks around it
static bool isIt()
{
	if (line[0] == '#' || ln <= keyLen || line[keyLen] != '=') return false;
	for (int i = 0; i < keyLen; i++) if (line[i] != key[i]) return false;
	v0 = keyLen + 1; v1 = ln; while (v1 > v0 && space(line[v1 - 1])) v1--; while (v0 < v1 && space(line[v0])) v0++; return true;
}
extern "C" {
FILE* fopen(const char* n, const char* m) { POST(!strcmp(n, "d/f") && m[0] == 'r'); if (!there) return 0; opened++; return F1; }
int fclose(FILE* f) { POST(f == F1 && opened == 1 && closed == 0); closed++; return 0; }
char* fgets(char* s, int n, FILE* f)
{
	POST(f == F1 && opened == 1 && closed == 0 && !hit && n > LL + 1); if (ended || vp_bool()) return 0;
#ifdef NLINES
	if (++lines > NLINES) ASSUME(false);
#endif
	ln = vp_int(1, LL); for (int i = 0; i < LL; i++) { line[i] = vp_int(1, 127); if (i >= ln) line[i] = 0; else ASSUME(line[i] != '\n'); }
#ifndef VP_CBMC
	if (vp_bool()) { for (int i = 0; i < keyLen && i < ln; i++) line[i] = key[i]; if (ln > keyLen) line[keyLen] = '='; for (int i = keyLen + 1; i < ln; i++) if (line[i] < 20) line[i] = ' '; }
#endif
	if (vp_bool()) line[ln++] = '\n'; else ended = true; line[ln] = 0; for (int i = 0; i <= LL + 1; i++) if (i <= ln) s[i] = line[i]; hit = isIt(); return s;
}
static Process* process()
{
	Process* p = raw<Process>();
#ifndef VP_CBMC
	new (&p->_configDir) string; new (&p->_configFile) string;
#endif
	p->_configDir = "d/"; p->_configFile = "f"; F1 = (FILE*)malloc(4); keyLen = vp_int(1, NKEY); for (int i = 0; i < NKEY; i++) { key[i] = vp_int(33, 126); if (i >= keyLen) key[i] = 0; ASSUME(key[i] != '=' && key[i] != '#'); }
	return p;
}
void vph_param_get()
{
	Process* p = process(); there = vp_bool(); bool thrown = false; char out[MQTTSNGW_PARAM_MAX]; out[0] = 7; int r = 0;
	try { r = p->getParam(key, out); } catch (Exception& e) { thrown = true; }
	POST(thrown == !there && opened == closed);
	if (thrown) { POST(opened == 0); REACH; }
	else if (!hit) { POST(r == -3 && out[0] == 7); REACH; }
	else { POST(r == 0); int k = vp_index(LL + 2); ASSUME(k >= 0 && k < LL + 2); if (k < v1 - v0) POST(out[k] == line[v0 + k]); if (k == v1 - v0) POST(out[k] == 0); REACH; }
}
#ifdef INDUCTION
void vp_ghost_fgets() {}
void vp_frame(void*) { POST(false); }
void vp_wloop0__ZN8MQTTSNGW7Process8getParamEPKcPc(int again) { POST(opened == 1 && closed == 0 && !hit); if (!again) ended = vp_bool(); }
#endif
}
