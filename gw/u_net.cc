// The TLS transfers of C26 whatever the number of rounds they take: the contracts of h_net.cc, the loops by invariant.
#define INDUCTION
#include "h_net.cc"
extern "C" {
void vp_ghost_select() {} void vp_ghost_SSL_write() {} void vp_ghost_SSL_read() {} void vp_ghost_SSL_get_error() {} void vp_ghost_SSL_pending() {}
void vp_frame(void*) { POST(false); }
void vp_wloop0__ZN7Network4sendEPKht(uint16_t* length, uint8_t* blocked, int* bpos, int again)
{
	POST(done >= 0 && done < L && *bpos == done && *length == L - done && nheld == 1);
	if (!again) { done = vp_int(0, L - 1); *bpos = done; *length = L - done; *blocked = vp_bool(); }
}
}
extern "C" {
void vp_wloop0__ZN7Network4recvEPht(int again) { POST(nheld == 1 && sslLive && W->_ssl == TLS && W->_busy && done == 0); }
void vp_wloop1__ZN7Network4recvEPht(int again) { POST(nheld == 1 && sslLive && W->_ssl == TLS && W->_busy && done == 0); }
void vp_wloop2__ZN7Network4recvEPht(int again) { POST(nheld == 1 && sslLive && W->_ssl == TLS && W->_busy && done == 0); }
}
