// Contract of Topic::isMatch (C12): MQTT 3.1.1 topic filter matching (4.7), bounded length.
#include "vp.h"
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWTopic.h"
int vp_batch = 300;
using namespace MQTTSNGW;
#ifndef LEN
#define LEN 6
#endif
// specification, character by character: f and t are NUL terminated
static bool spec(const char* f, const char* t)
{
	int i = 0, j = 0;      // start of a level in filter and topic
	for (int lev = 0; lev <= LEN; lev++)
	{
		if (f[i] == '#') return true;
		if (f[i] == '+') { i++; for (int k = 0; k < LEN; k++) if (t[j] != 0 && t[j] != '/') j++; }
		else for (int k = 0; k < LEN; k++) if (f[i] != 0 && f[i] != '/') { if (f[i] != t[j]) return false; i++; j++; }
		// both at the end of a level?
		if (f[i] == 0) return t[j] == 0;
		if (t[j] == 0) return f[i + 1] == '#';      // the parent level of x/#
		if (t[j] != '/') return false;
		i++; j++;
	}
	return false;
}
static char* text(int n, bool filter)
{
	static char buf[2][LEN + 1]; char* s = buf[filter];
	for (int i = 0; i < LEN; i++) if (i < n)
	{
		static const char C[] = { '/', 'a', 'b', '#', '+', (char)0xc3 };
		int x = vp_int(0, 5); ASSUME(filter || (x != 3 && x != 4)); s[i] = C[x];
	}
	s[n] = 0;
	if (filter) for (int i = 0; i < LEN; i++) if (i < n)       // wildcards occupy a whole level, # is the last character
	{
		if (s[i] == '#') ASSUME(i == n - 1 && (i == 0 || s[i - 1] == '/'));
		if (s[i] == '+') ASSUME((i == n - 1 || s[i + 1] == '/') && (i == 0 || s[i - 1] == '/'));
	}
	return s;
}
extern "C" void vph_match()
{
	int fn = vp_int(0, LEN), tn = vp_int(0, LEN);
	char* f = text(fn, true); char* t = text(tn, false);
	bool want = spec(f, t);
	Topic topic(new std::string(f), MQTTSN_TOPIC_TYPE_NORMAL); std::string name(t);
	bool got = topic.isMatch(&name);
	POST(got == want);
	POST(name == t); POST(*topic._topicName == f);
	REACH;
}
