// Invariants of loops over linked lists of any length (unbounded proofs).
// A list of n nodes is seen through a window: its first and last node, and three neighbours around position i, the node
// the loop is looking at.  Every other node is `far`.  n and i are any numbers.  The loop is cut: on entry the cursor
// must be the first node; then it is moved to any position i of which the invariant "no node before i hits" holds; on the
// back edge the cursor must be node i+1 and node i must not have hit.  Whatever the position and the contents of the
// nodes: so the contract of the loop is proved for lists of every length.
// On removal or insertion only the neighbours may change: is() compares every node of the window with the list wanted.
#ifndef WINDOW_H
#define WINDOW_H
static void* vp_block(size_t n);
extern "C" void* vp_gone();	// what was deleted last
template <class T, T* T::*NEXT, T* T::*PREV, bool BOTH, void (*ANY)(T*), unsigned long (*KEY)(T*)> struct Window
{
	T *f, *t, *p, *c, *x, *far; int n, i; bool all, swapped; unsigned long kf, kt, kp, kc, kx, kfar;
	T *a, *b, *d, *e, *g, *o1, *z1, *z2;	// nodes i-2, i-1, i, i+1, i+2, 1, n-1, n-2
	static T* node() { T* o = (T*)vp_block(sizeof(T)); ANY(o); return o; }
	T* obj(int k) { return k < 0 || k >= n ? 0 : k == 0 ? f : k == n - 1 ? t : k == i - 1 ? p : k == i ? c : k == i + 1 ? x : far; }
	unsigned long key(int k) { return k == 0 ? kf : k == n - 1 ? kt : k == i - 1 ? kp : k == i ? kc : k == i + 1 ? kx : kfar; }
	T* first() { return n > 0 ? f : 0; }
	T* last() { return z1; }
	bool fresh(T* o) { return o && o != f && o != t && o != p && o != c && o != x && o != far; }
	bool inner(int k) { return k > 0 && k < n - 1; }
	void set(T* o, T* nx, T* pv) { o->*NEXT = nx; if (BOTH) o->*PREV = pv; }
	// any list: of any length up to max
	void any(int max) { n = vp_int(0, max); i = vp_int(0, max); ASSUME(i <= n); f = node(); t = node(); far = node(); kf = KEY(f); kt = KEY(t); kfar = KEY(far); all = false; set(far, far, far); look(); }
	// the same list, looked at from position i (any contents there: nothing is remembered of the nodes between the ends)
	void look()
	{
		p = node(); c = node(); x = node(); kp = KEY(p); kc = KEY(c); kx = KEY(x);
		a = obj(i - 2); b = obj(i - 1); d = obj(i); e = obj(i + 1); g = obj(i + 2); o1 = obj(1); z1 = obj(n - 1); z2 = obj(n - 2);
		set(f, o1, 0); set(t, 0, z2); set(p, d, a); set(c, e, b); set(x, g, d);
	}
	// the invariant of a search; none (some): an earlier search has found that no node hits (that one does)
	void search(void** cur, int again, bool (*hit)(T*), bool none = false, bool some = false)
	{
		if (again) { POST(*cur == e && !hit(d)); return; }
		POST(*cur == first()); is(-1, 0); i = vp_int(0, n); look(); *cur = d; all = i == n;
		if (i > 0) { ASSUME(!hit(f)); ASSUME(!hit(b)); }
		if (some) ASSUME(i < n);
		if (none && n > 0) { ASSUME(!hit(f)); ASSUME(!hit(t)); if (i < n) ASSUME(!hit(d)); }
	}
	// the same with a second cursor, one node behind
	void search2(void** c0, void** c1, int again, bool (*hit)(T*))
	{
		if (!again) { swapped = *c0 != first(); POST(*(swapped ? c0 : c1) == 0); }
		search(swapped ? c1 : c0, again, hit); void** behind = swapped ? c0 : c1;
		if (again) POST(*behind == d); else *behind = b;
	}
	// node i has changed, as it should
	void rekey() { if (i == 0) kf = KEY(f); else if (i == n - 1) kt = KEY(t); else kc = KEY(c); }
	// the invariant of a loop that deletes the nodes one by one
	void wipe(void** cur, int again)
	{
		if (again) { POST(*cur == e && vp_gone() == d); return; }
		POST(*cur == first()); is(-1, 0); i = vp_int(0, n); look(); *cur = d; all = i == n; if (i > 0) { free(f); if (b != f) free(b); }
	}
	// the same from the end
	void wipe_back(void** cur, int again)
	{
		if (again) { POST(*cur == b && vp_gone() == d); return; }
		POST(*cur == last()); is(-1, 0); int left = vp_int(0, n); all = left == 0; i = left - 1; look(); *cur = d; if (left < n) { free(t); if (e && e != t) free(e); }
	}
	// node o at position k, next nx and prev pv as the list was: what it must be now, without node `gone`, with `added` at the end
	void node_is(T* o, int k, unsigned long key, T* nx, T* pv, int gone, T* added)
	{
		POST(KEY(o) == key); if (k + 1 == gone) nx = k == i - 2 ? e : k == i - 1 ? e : k == i ? g : o->*NEXT; if (nx == 0) nx = added;
		POST(o->*NEXT == nx);
		if (BOTH) { if (k - 1 == gone) pv = k == i + 1 ? b : k == i + 2 ? d : k == i ? a : o->*PREV; POST(o->*PREV == pv); }
	}
	// the list as it was, without node `gone` (-1: none; else near i), with `added` at its end (0: none)
	void is(int gone, T* added)
	{
		if (n > 0 && gone != 0) node_is(f, 0, kf, o1, 0, gone, added);
		if (n > 1 && gone != n - 1) node_is(t, n - 1, kt, 0, z2, gone, added);
		if (inner(i - 1) && gone != i - 1) node_is(p, i - 1, kp, d, a, gone, added);
		if (inner(i) && gone != i) node_is(c, i, kc, e, b, gone, added);
		if (inner(i + 1) && gone != i + 1) node_is(x, i + 1, kx, g, d, gone, added);
		if (added) { POST(added->*NEXT == 0); if (BOTH) POST(added->*PREV == last(gone)); }
	}
	T* first(int gone, T* added) { T* o = gone == 0 ? o1 : first(); return o ? o : added; }
	T* last(int gone) { return gone == n - 1 ? z2 : z1; }
};
#endif
