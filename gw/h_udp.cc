// Contracts of the sensor network over UDP (C27): linux/udp/SensorNetwork.cpp over sockets.
#include "vp.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <errno.h>
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWProcess.h"
#include "SensorNetwork.h"
using namespace MQTTSNGW;
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
static UDPPort* U; static uint32_t ipOf; static int portOf; static bool ipAsked, portAsked;
void Process::putLog(const char*, ...) {}
namespace MQTTSNGW { Process* theProcess; }
#ifdef VP_CBMC
#define fresh(o, T) T* o = raw<T>()
#else
#define fresh(o, T) T* o = new T
#endif
// ---- the system
struct Sock { bool live, bound, reuse, member, ttlSet, loopSet; uint16_t port; uint32_t group, ttl; int fd; };
static Sock S[2]; static int made, closes, sends, recvs, polls, fdA, fdB; static bool ok[9];
static Sock* of(int fd) { return made > 0 && fd == S[0].fd ? &S[0] : made > 1 && fd == S[1].fd ? &S[1] : 0; }
static const uint8_t* B; static int L, got, from; static uint32_t dip, sip; static uint16_t dport, sport; static short rev[2]; static int eno; static bool addrOpen;
extern "C" {
int socket(int f, int t, int p) noexcept { POST(f == AF_INET && t == SOCK_DGRAM && (p == 0 || p == IPPROTO_UDP) && made < 2); if (!ok[made]) return -1; Sock* s = &S[made]; s->fd = made ? fdB : fdA; s->live = true; made++; return s->fd; }
int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept { Sock* s = of(fd); POST(s && s->live && !s->bound && n == sizeof(struct sockaddr_in)); const struct sockaddr_in* i = (const struct sockaddr_in*)a; POST(i->sin_family == AF_INET && i->sin_addr.s_addr == INADDR_ANY); if (!ok[2 + (s == &S[1])]) return -1; s->bound = true; s->port = i->sin_port; return 0; }
int setsockopt(int fd, int level, int o, const void* v, socklen_t n) noexcept
{
	Sock* s = of(fd); POST(s && s->live);
	if (level == IPPROTO_IP && o == IP_ADD_MEMBERSHIP) { POST(n == sizeof(struct ip_mreq)); if (!ok[4]) return -1; const struct ip_mreq* m = (const struct ip_mreq*)v; POST(m->imr_interface.s_addr == INADDR_ANY); s->member = true; s->group = m->imr_multiaddr.s_addr; return 0; }
	POST(n == 4); int x = *(const int*)v;
	if (level == SOL_SOCKET && o == SO_REUSEADDR) { POST(!s->bound && x != 0); s->reuse = true; return 0; }
	if (level == IPPROTO_IP && o == IP_MULTICAST_TTL) { if (!ok[5]) return -1; s->ttlSet = true; s->ttl = x; return 0; }
	if (level == IPPROTO_IP && o == IP_MULTICAST_LOOP) { if (!ok[6]) return -1; s->loopSet = true; return 0; }
	return 0;
}
int close(int fd) { Sock* s = of(fd); POST(s && s->live); s->live = false; closes++; return 0; }
in_addr_t inet_addr(const char* s) noexcept { return ipOf; }
char* inet_ntoa(struct in_addr a) noexcept { POST(a.s_addr == ipOf); return (char*)"1.2.3.4"; }
int atoi(const char* s) noexcept;
ssize_t sendto(int fd, const void* p, size_t n, int fl, const struct sockaddr* a, socklen_t al)
{
	const struct sockaddr_in* d = (const struct sockaddr_in*)a; POST(fd == fdA && p == B && n == (size_t)L && al == sizeof(struct sockaddr_in) && d->sin_family == AF_INET && d->sin_addr.s_addr == dip && d->sin_port == dport); sends++; return got;
}
int poll(struct pollfd* f, nfds_t n, int ms)
{
	POST(f == U->_pollFds && n == 2 && f[0].fd == fdA && f[1].fd == fdB && (f[0].events & POLLIN) && (f[1].events & POLLIN) && ms >= 0); polls++; f[0].revents = rev[0]; f[1].revents = rev[1]; return (rev[0] != 0) + (rev[1] != 0);
}
ssize_t recvfrom(int fd, void* p, size_t n, int fl, struct sockaddr* a, socklen_t* al)
{
	POST(((fd == fdA && rev[0] == POLLIN) || (fd == fdB && rev[1] == POLLIN)) && recvs == 0 && p == B && n == (size_t)L && *al >= sizeof(struct sockaddr_in) && fl == 0); recvs++; from = fd; INSIDE(vp_readable(p, n));
	if (got < 0) { errno = eno; return -1; }
	struct sockaddr_in* i = (struct sockaddr_in*)a; i->sin_family = AF_INET; i->sin_addr.s_addr = sip; i->sin_port = sport; *al = sizeof(struct sockaddr_in); return got;
}
}
// ---- the configuration
static bool has[4]; static int val[4]; static const char KEYS[4][16] = { "MulticastIP", "MulticastPortNo", "GatewayPortNo", "MulticastTTL" };
static int keyOf(const char* s) { return s[0] - 'a'; }
int Process::getParam(const char* k, char* v)
{
	POST(this == theProcess); for (int i = 0; i < 4; i++) if (!strcmp(k, KEYS[i])) { if (!has[i]) return -1; v[0] = 'a' + i; v[1] = 0; return 0; }
	return -1;
}
extern "C" int atoi(const char* s) noexcept { int k = keyOf(s); if (k >= 1 && k <= 3 && s[1] == 0) return val[k]; portAsked = true; return portOf; }
static void port() { U = raw<UDPPort>(); fdA = vp_int(1, 1000); fdB = vp_int(1, 1000); ASSUME(fdA != fdB); for (int i = 0; i < 9; i++) ok[i] = vp_bool(); ipOf = vp_int(-2147483647, 2147483647); }
static void opened() { port(); U->_pollFds[0].fd = fdA; U->_pollFds[1].fd = fdB; U->_pollFds[0].events = U->_pollFds[1].events = POLLIN; made = 2; S[0].fd = fdA; S[1].fd = fdB; S[0].live = S[1].live = S[0].bound = S[1].bound = true; }
static uint16_t net(int p) { return (uint16_t)((p & 255) << 8 | ((p >> 8) & 255)); }
// both sockets as the configuration says
static void wired(UDPPort* u, int multi, int uni, uint32_t group, uint32_t ttl)
{
	POST(made == 2 && closes == 0 && S[0].live && S[0].bound && S[0].port == net(uni) && S[1].live && S[1].bound && S[1].reuse && S[1].port == net(multi) && S[1].member && S[1].group == group);
	POST(S[0].ttlSet && S[0].ttl == ttl);		// multicasts leave through the first socket
	POST(u->_pollFds[0].fd == fdA && u->_pollFds[1].fd == fdB && (u->_pollFds[0].events & POLLIN) && (u->_pollFds[1].events & POLLIN));
	POST(u->_multicastAddr._IpAddr == group && u->_multicastAddr._portNo == net(multi));
}
extern "C" {
void vph_udp_addr()
{
	SensorNetAddress* a = raw<SensorNetAddress>(); SensorNetAddress* b = raw<SensorNetAddress>(); uint32_t i = vp_int(-2147483647, 2147483647), j = vp_bool() ? i : vp_int(-2147483647, 2147483647); uint16_t p = vp_u16(), q = vp_bool() ? p : vp_u16();
	a->setAddress(i, p); b->setAddress(j, q); POST(a->getIpAddress() == i && a->getPortNo() == p && a->isMatch(b) == (i == j && p == q)); REACH;
	*a = *b; POST(a->getIpAddress() == j && a->getPortNo() == q && b->getIpAddress() == j && b->getPortNo() == q && a->isMatch(b)); REACH;
	SensorNetAddress n; POST(n.getIpAddress() == 0 && n.getPortNo() == 0); REACH;
}
void vph_udp_parse()
{
	SensorNetAddress a; a.setAddress(5, 6); int n = vp_int(0, 5); char* s = vp_cstr(n); int c = -1; for (int i = n - 1; i >= 0; i--) if (s[i] == ':') c = i; else ASSUME(s[i] < 'a' || s[i] > 'd');
	string* t = new string(s); ipOf = vp_bool() ? INADDR_NONE : vp_int(-2147483647, 2147483647); portOf = vp_int(0, 65535); int r = a.setAddress(t);
	if (c >= 0 && portOf != 0 && ipOf != INADDR_NONE) { POST(r == 0 && portAsked && a.getIpAddress() == ipOf && a.getPortNo() == net(portOf)); REACH; } else { POST(r == -1); REACH; }
}
void vph_udp_unicast()
{
	opened(); SensorNetAddress to; L = vp_int(0, 65535); B = (uint8_t*)vp_new(L); dip = vp_int(-2147483647, 2147483647); dport = vp_u16(); got = vp_int(-1, 65535); to.setAddress(dip, dport);
	SensorNetwork* w = raw<SensorNetwork>(); w->_pollFds[0] = U->_pollFds[0]; w->_pollFds[1] = U->_pollFds[1]; U = w; bool all = vp_bool(); if (all) w->_multicastAddr.setAddress(dip, dport); ipOf = dip;
	int r = all ? w->broadcast(B, L) : w->unicast(B, L, &to); POST(r == got && sends == 1 && polls == 0 && to.getIpAddress() == dip && to.getPortNo() == dport && w->_pollFds[0].fd == fdA); REACH;
}
void vph_udp_read()
{
	opened(); SensorNetwork* w = raw<SensorNetwork>(); w->_pollFds[0] = U->_pollFds[0]; w->_pollFds[1] = U->_pollFds[1]; U = w; L = vp_int(1, 65535); B = (uint8_t*)vp_new(L); got = vp_int(-1, L); eno = vp_bool() ? EAGAIN : EIO; sip = vp_int(-2147483647, 2147483647); sport = vp_u16(); ipOf = sip;
	rev[0] = vp_bool() ? POLLIN : 0; rev[1] = vp_bool() ? POLLIN : 0; w->_senderAddr.setAddress(1, 2);
	int r = w->read((uint8_t*)B, L); POST(polls == 1 && recvs == (rev[0] || rev[1] ? 1 : 0));
	if (!recvs) { POST(r == 0); REACH; } else if (got < 0) { POST(r == -1); REACH; } else { POST(r == got && w->getSenderAddress()->getIpAddress() == sip && w->getSenderAddress()->getPortNo() == sport); REACH; }
}
void vph_udp_open()
{
	port(); int multi = vp_int(0, 65535), uni = vp_int(0, 65535); unsigned ttl = vp_int(0, 255); int r = U->open("g", multi, uni, ttl);
	if (multi == 0 || uni == 0) { POST(r == -1 && made == 0); REACH; }
	else if (r == 0) { wired(U, multi, uni, ipOf, ttl); REACH; U->close(); POST(closes == 2 && U->_pollFds[0].fd == 0 && U->_pollFds[1].fd == 0); U->close(); POST(closes == 2); REACH; }
	else { POST(r == -1 && !(ok[0] && ok[1] && ok[2] && ok[3] && ok[4] && ok[5] && ok[6])); REACH; }
}
void vph_udp_init()
{
	port(); for (int i = 0; i < 4; i++) { has[i] = vp_bool(); val[i] = vp_int(0, i == 3 ? 255 : 65535); } if (!has[1]) val[1] = 0; if (!has[2]) val[2] = 0; if (!has[3]) val[3] = 1;
	theProcess = (Process*)malloc(sizeof(Process)); fresh(w, SensorNetwork); U = w; bool thrown = false;
	try { w->initialize(); } catch (Exception& e) { thrown = true; }
	if (thrown) { POST(!val[1] || !val[2] || !(ok[0] && ok[1] && ok[2] && ok[3] && ok[4] && ok[5] && ok[6])); REACH; } else { POST(val[1] && val[2]); wired(w, val[1], val[2], ipOf, val[3]); REACH; }
}
}
