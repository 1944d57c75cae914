// Contracts of the connection to the broker (C26): linux/Network.cpp over sockets and OpenSSL.
#include "vp.h"
#include <sys/socket.h>
#include <sys/select.h>
#include <netdb.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWProcess.h"
#include "Network.h"
using namespace MQTTSNGW;
#ifndef NIT
#define NIT 3
#endif
#ifdef INDUCTION
#define LATER
#else
#define LATER if (++its > NIT) ASSUME(false)
#endif
template<class T> T* raw() { return (T*)calloc(1, sizeof(T)); }
static Network* W; static bool sec; static Mutex* held[2]; static int nheld;
Mutex::Mutex() {} Mutex::~Mutex() {}
void Mutex::lock() { POST(nheld < 2 && !(nheld > 0 && held[0] == this)); held[nheld++] = this; }
void Mutex::unlock() { POST(nheld > 0 && held[nheld - 1] == this); nheld--; }
void Process::putLog(const char*, ...) {}
namespace MQTTSNGW { Process* theProcess; }
const char* currentDateTime() { return ""; }
// ---- sockets
static const char *host, *port; static struct addrinfo* ai; static bool aiLive, aiOk, sockOk, conOk, optOk; static int fd0, opened, closed, conned, lookups, frees;
extern "C" {
int getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r)
{
	POST(n == host && s == port && h->ai_socktype == SOCK_STREAM && h->ai_flags == 0 && h->ai_protocol == 0 && !aiLive); lookups++;
	if (!aiOk) return EAI_AGAIN;
	ai = raw<struct addrinfo>(); ai->ai_family = vp_int(0, 30); ai->ai_socktype = SOCK_STREAM; ai->ai_protocol = vp_int(0, 30); ai->ai_addrlen = vp_int(0, 128); ai->ai_addr = (struct sockaddr*)malloc(8); aiLive = true; *r = ai; return 0;
}
void freeaddrinfo(struct addrinfo* p) noexcept { POST(p == ai && aiLive); aiLive = false; frees++; }
const char* gai_strerror(int) noexcept { return ""; }
int socket(int f, int t, int p) noexcept { POST(aiLive && f == ai->ai_family && t == ai->ai_socktype && p == ai->ai_protocol && opened == 0); if (!sockOk) return -1; opened++; return fd0; }
int setsockopt(int f, int, int, const void*, socklen_t) noexcept { POST(f == fd0 && opened == 1); return optOk ? 0 : -1; }
int connect(int f, const struct sockaddr* a, socklen_t n) { POST(f == fd0 && opened == 1 && aiLive && a == ai->ai_addr && n == ai->ai_addrlen); if (!conOk) return -1; conned++; return 0; }
int close(int f) { POST(f == fd0 && (opened == 1 || conned == 1)); opened = conned = 0; closed++; return 0; }
static const uint8_t* B; static int L, done, raws, rawr, its; static bool want;
ssize_t send(int f, const void* p, size_t n, int fl) { POST(!sec && f == fd0 && p == B && n == (size_t)L && (fl & MSG_NOSIGNAL)); raws++; return done = vp_int(-1, L); }
ssize_t recv(int f, void* p, size_t n, int fl) { POST(!sec && f == fd0 && p == B && n == (size_t)L && fl == 0); raws++; return done = vp_int(-1, L); }
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
	POST(n == fd0 + 1 && FD_ISSET(fd0, r) && FD_ISSET(fd0, w) && !e); LATER;
	if (!vp_bool()) FD_CLR(fd0, r); if (!vp_bool()) FD_CLR(fd0, w); return vp_bool() ? 1 : rawr ? 0 : 1;
}
// ---- OpenSSL
static char mCTX[4], mSSL[4], mPEER[4], mNAME[4], mSESS[4];
#define CTX ((SSL_CTX*)mCTX)
#define TLS ((SSL*)mSSL)
#define PEER ((X509*)mPEER)
#define SESS ((SSL_SESSION*)mSESS)
static bool ctxLive, caIn, certIn, keyIn, sslLive, fdIn, hand; static int verify, peerRefs, sessFree, shut; static const char *caPath, *caFile, *cert, *prv; static bool okCtx, okCa, okCert, okKey, okNew, okFd, okHand, okPeer; static char* cn; static int cnLen;
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
const SSL_METHOD* TLS_client_method(void) { return (const SSL_METHOD*)mNAME; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD* m) { POST(m == (const SSL_METHOD*)mNAME && !ctxLive); if (!okCtx) return 0; ctxLive = true; caIn = certIn = keyIn = false; return CTX; }
void SSL_CTX_free(SSL_CTX* c) { POST(c == CTX && ctxLive && !sslLive); ctxLive = false; }
int SSL_CTX_load_verify_locations(SSL_CTX* c, const char* f, const char* d) { POST(c == CTX && ctxLive && f == caFile && d == caPath); return caIn = okCa; }
int SSL_CTX_use_certificate_file(SSL_CTX* c, const char* f, int t) { POST(c == CTX && ctxLive && f == cert && t == SSL_FILETYPE_PEM); certIn = okCert; return okCert ? 1 : vp_int(-1, 0); }
int SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char* f, int t) { POST(c == CTX && ctxLive && f == prv && t == SSL_FILETYPE_PEM); keyIn = okKey; return okKey ? 1 : vp_int(-1, 0); }
SSL* SSL_new(SSL_CTX* c) { POST(c == CTX && ctxLive && !sslLive && conned == 1 && caIn && IMP(cert, certIn) && IMP(prv, keyIn)); if (!okNew) return 0; sslLive = true; fdIn = hand = false; return TLS; }
void SSL_free(SSL* s) { POST(s == TLS && sslLive); sslLive = false; }
int SSL_set_fd(SSL* s, int f) { POST(s == TLS && sslLive && f == fd0); fdIn = okFd; return okFd; }
int SSL_set_session(SSL* s, SSL_SESSION* x) { POST(s == TLS && sslLive && x == SESS && !hand); return 1; }
int SSL_connect(SSL* s) { POST(s == TLS && sslLive && fdIn && !hand); hand = okHand; return okHand ? 1 : vp_int(-1, 0); }
long SSL_get_verify_result(const SSL* s) { POST(s == TLS && sslLive && hand); return verify; }
const char* X509_verify_cert_error_string(long) { return ""; }
X509* SSL_get1_peer_certificate(const SSL* s) { POST(s == TLS && sslLive && hand); if (!okPeer) return 0; peerRefs++; return PEER; }
void X509_free(X509* p) { POST(p == PEER && peerRefs > 0); peerRefs--; }
X509_NAME* X509_get_subject_name(const X509* p) { POST(p == PEER && peerRefs > 0); return (X509_NAME*)mNAME; }
int X509_NAME_get_text_by_NID(const X509_NAME* n, int nid, char* b, int len) { POST(n == (X509_NAME*)mNAME && nid == NID_commonName && cnLen < len); if (cnLen < 0) return -1; for (int i = 0; i < cnLen; i++) b[i] = cn[i]; b[cnLen] = 0; return cnLen; }
SSL_SESSION* SSL_get1_session(SSL* s) { POST(s == TLS && sslLive && hand); return SESS; }
void SSL_SESSION_free(SSL_SESSION* x) { POST(x == SESS); sessFree++; }
int SSL_shutdown(SSL* s) { POST(s == TLS && sslLive); shut++; return 1; }
int SSL_pending(const SSL* s) { POST(s == TLS && sslLive); return vp_int(0, 1); }
unsigned long ERR_get_error(void) { return 1; }
void ERR_error_string_n(unsigned long, char* b, size_t n) { INSIDE(n > 0); b[0] = 0; b[n - 1] = 0; }
static int lastR, lastE;
static int outcome(int n) { lastE = vp_int(0, 8); lastR = lastE == SSL_ERROR_NONE ? vp_int(1, n) : vp_int(-1, 0); return lastR; }
int SSL_write(SSL* s, const void* p, int n) { POST(s == TLS && sslLive && nheld == 1 && p == B + done && n > 0 && n == L - done); int r = outcome(n); if (r > 0) done += r; return r; }
int SSL_read(SSL* s, void* p, int n) { POST(s == TLS && sslLive && nheld == 1 && p == B && n == L); LATER; int r = outcome(n); INSIDE(vp_readable(p, n)); if (r > 0) done = r; return r; }
int SSL_get_error(const SSL* s, int r) { POST(s == TLS && sslLive && r == lastR); return lastE; }
}
// a connection in any state the gateway can be in: TCP or not, TLS or not
static void state(bool tcp, bool tls)
{
	W = raw<Network>(); fd0 = vp_int(1, 1023); sec = vp_bool(); W->_secureFlg = sec; W->_busy = false;
	aiOk = vp_bool(); sockOk = vp_bool(); conOk = vp_bool(); optOk = vp_bool(); if (vp_bool()) { ai = raw<struct addrinfo>(); aiLive = true; W->_addrinfo = ai; }
	if (tcp) { W->_sockfd = fd0; conned = 1; if (!aiLive) { ai = raw<struct addrinfo>(); aiLive = true; W->_addrinfo = ai; } }
	Network::_numOfInstance = vp_int(0, 1000); Network::_ctx = 0; Network::_session = 0;
	if (tls && tcp && sec) { W->_ssl = TLS; sslLive = fdIn = hand = true; W->_sslValid = true; Network::_numOfInstance++; }
	if (sslLive || Network::_numOfInstance > 0 || vp_bool()) { ctxLive = true; Network::_ctx = CTX; caIn = certIn = keyIn = true; }
	if (ctxLive && vp_bool()) Network::_session = SESS;
}
static bool established() { return W->_sockfd == fd0 && conned == 1 && IMP(sec, W->_ssl == TLS && sslLive && hand); }
// the certificate is the host's: its common name is the host's name, or *. and what follows the first dot of the host's name
static bool names(const char* h, int hl)
{
	if (cnLen < 0) return false;
	for (int i = 0; i < cnLen; i++) if (cn[i] == 0) return false;
	int o = 0, c = 0;
	if (cnLen >= 2 && cn[0] == '*' && cn[1] == '.') { c = 2; while (o < hl && h[o] != '.') o++; o = o < hl ? o + 1 : hl; }
	if (hl - o != cnLen - c) return false;
	for (int i = 0; i < hl - o; i++) if (h[o + i] != cn[c + i]) return false;
	return true;
}
#ifndef NHOST
#define NHOST 4
#endif
extern "C" {
void vph_net_connect()
{
	state(vp_bool(), false); int was = conned; host = "h"; port = "p"; bool live = aiLive;
	bool r = W->connect(host, port); POST(nheld == 0 && W->_secureFlg == sec && aiLive == (W->_addrinfo != 0) && IMP(aiLive, W->_addrinfo == ai));
	if (sec) { POST(!r && lookups == 0 && W->_sockfd == (was ? fd0 : 0)); REACH; }
	else if (was) { POST(r && lookups == 0 && established() && W->isValid()); REACH; }
	else if (r) { POST(aiOk && sockOk && conOk && lookups == 1 && conned == 1 && established() && W->isValid() && W->getSock() == fd0); REACH; }
	else { POST((!aiOk || !sockOk || !optOk || !conOk) && conned == 0 && W->_sockfd <= 0 && !W->isValid()); REACH; }
}
void vph_net_tls()
{
	state(vp_bool(), false); int was = conned; if (W->_session) ASSUME(ctxLive); int hl = vp_int(0, NHOST); host = (char*)vp_cstr(hl); const char* h = host; port = "p"; caPath = vp_bool() ? "cp" : 0; caFile = vp_bool() ? "cf" : 0; cert = vp_bool() ? "ce" : 0; prv = vp_bool() ? "pk" : 0;
	okCtx = vp_bool(); okCa = vp_bool(); okCert = vp_bool(); okKey = vp_bool(); okNew = vp_bool(); okFd = vp_bool(); okHand = vp_bool(); okPeer = vp_bool(); verify = vp_int(0, 100); cnLen = vp_int(-1, NHOST + 2); cn = (char*)vp_new(cnLen < 0 ? 1 : cnLen + 1);
#ifndef VP_CBMC
	if (vp_bool()) { cnLen = hl; memcpy(cn = (char*)vp_new(hl + 1), h, hl); } else if (vp_bool()) { const char* d = strchr(h, '.'); if (d) { cnLen = strlen(d) + 1; cn = (char*)vp_new(cnLen + 1); cn[0] = '*'; memcpy(cn + 1, d, cnLen - 1); } }
	if (vp_bool()) { verify = X509_V_OK; okPeer = okCtx = okCa = okCert = okKey = okNew = okFd = okHand = true; }
#endif
	int inst = Network::_numOfInstance; SSL_SESSION* ss = Network::_session; bool had = ctxLive;
	bool r = W->connect(host, port, caPath, caFile, cert, prv);
	POST(nheld == 0 && W->_secureFlg == sec && peerRefs == 0 && aiLive == (W->_addrinfo != 0) && IMP(aiLive, W->_addrinfo == ai) && sslLive == (W->_ssl != 0) && ctxLive == (Network::_ctx != 0) && IMP(ctxLive && !had, caIn && IMP(cert, certIn) && IMP(prv, keyIn)));
	if (r) { POST(sec && hand && verify == X509_V_OK && okPeer && names(h, hl) && established() && W->isValid() && !W->_busy && Network::_numOfInstance == inst + 1 && Network::_session == SESS && IMP(!was, lookups == 1)); REACH; }
	else { POST(W->_ssl == 0 && !W->isValid() == !(W->_sockfd > 0 && !sec) && Network::_numOfInstance == inst && Network::_session == ss); REACH; }
	if (sec && okCtx && okCa && okCert && okKey && okNew && okFd && okHand && verify == X509_V_OK && okPeer && names(h, hl) && (was || (aiOk && sockOk && optOk && conOk))) { POST(r); REACH; }
}
void vph_net_close()
{
	state(vp_bool(), true); int inst = Network::_numOfInstance; bool had = sslLive, ctx = ctxLive; SSL_SESSION* ss = Network::_session; int was = conned; if (sec && was && vp_bool()) { W->_ssl = 0; sslLive = false; Network::_numOfInstance--; inst--; had = false; }		// the broker closed the session
	W->close();
	POST(nheld == 0 && W->_ssl == 0 && !sslLive && W->_sockfd == 0 && conned == 0 && closed == was && !W->isValid() && shut == (had ? 1 : 0) && W->_addrinfo == (aiLive ? ai : 0) && Network::_numOfInstance == inst - (had ? 1 : 0));
	POST(IMP(!sec || Network::_numOfInstance > 0, Network::_session == ss && ctxLive == ctx && Network::_ctx == (ctx ? CTX : 0)) && IMP(sec && Network::_numOfInstance == 0, Network::_session == 0 && Network::_ctx == 0 && !ctxLive && sessFree == (ss ? 1 : 0))); REACH;
	// and the next connection is not valid before it is verified
	W->_sockfd = fd0; conned = 1; POST(W->isValid() == !sec); REACH;
}
void vph_net_send()
{
	state(true, true); if (sec && vp_bool()) { W->_ssl = 0; sslLive = false; } bool tls = sslLive; L = vp_int(1, 65535); B = (uint8_t*)vp_new(L); done = 0;
	int r = W->send(B, L); POST(nheld == 0 && !W->_busy && W->_ssl == (sslLive ? TLS : 0) && W->_sockfd == fd0 && conned == 1);
	if (!sec) { POST(raws == 1 && r == done); REACH; }
	else if (!tls) { POST(r == -1 && done == 0); REACH; }
	else if (r == -1) { POST(lastE != SSL_ERROR_NONE); REACH; }
	else { POST(r == L && done == L); REACH; }
}
void vph_net_recv()
{
	state(true, true); rawr = 1; if (sec && vp_bool()) { W->_ssl = 0; sslLive = false; } bool tls = sslLive; L = vp_int(1, 65535); B = (uint8_t*)malloc(L); done = 0; int inst = Network::_numOfInstance;
	int r = W->recv((uint8_t*)B, L); POST(nheld == 0 && !W->_busy && W->_ssl == (sslLive ? TLS : 0) && W->_sockfd == fd0 && conned == 1);
	if (!sec) { POST(raws == 1 && r == done); REACH; }
	else if (!tls) { POST(r == 0 && done == 0); REACH; }
	else if (r > 0) { POST(r == done && sslLive); REACH; }
	else { POST(r == -1 && Network::_numOfInstance == inst - (W->_ssl == 0 ? 1 : 0)); REACH; }
}
// valid means connected, and verified where that is required; a transfer of another task does not change it
void vph_net_valid()
{
	state(vp_bool(), vp_bool()); W->_busy = vp_bool(); POST(W->isValid() == established() && W->isSecure() == sec && W->getSock() == (conned ? fd0 : 0)); REACH;
	bool s = vp_bool(); W->setSecure(s); POST(W->isSecure() == s); REACH;
	Network* n = new Network; POST(!n->isValid() && !n->isSecure() && n->getSock() == 0 && n->_ssl == 0 && n->_addrinfo == 0 && !n->_busy); REACH;
}
}
