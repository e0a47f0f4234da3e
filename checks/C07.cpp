#include "lib.h"
#include <algorithm>
const char *PROPERTY = "C07", *LEVEL = "exploration";
const char *RULE = "A case is up to two skip lists with generated keys (integers, strings, pointer values; compare functions with odd magnitudes; separate key objects) and a history of inserts, deletes, finds and iterations whose callbacks insert, delete (the current, an earlier, a later datum), iterate over the same or another list, or stop, against a map model; the order and identity of visits is compared with the contents at the start of the iteration and a full comparison follows. "
	"illegal: inserting a present key or deleting an absent one must abort with a report. cost: comparisons per find in lists of 1000 to 60000 data inserted in various orders, with deletions in between. Non-trivial: at least 5 data and a deletion or a callback that changed the list.";
const char *ASSUMPTIONS = "the compare function is a consistent total order\nNULL is not used as a datum\nthe level generator is random(): cost bounds (mean of at most 12 log2 n + 40 comparisons over 200 finds) hold with overwhelming probability for any seed";

struct D { int k; int pad; char text[24]; };
static std::vector<D> *pool; static long compares; static int mag;
// compare and key functions may use another skip list themselves
static sl_List side_l; static bool side_busy; static unsigned side_n, side_seen; static int side_v[8];
static const void *side_key(const void *d) { return d; }
static int side_cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static int side_cb(const void *) { side_seen++; return 0; }
static void side_start() { for (int i = 0; i < 8; i++) side_v[i] = 2 * i; side_busy = true; side_n = 0; side_l = sl_create(side_cmp, side_key, nullptr); for (int i = 0; i < 7; i++) sl_insert(side_l, side_v + i); side_busy = false; }
static void side()
{
	if (!side_l || side_busy || side_n++ % 3) return;
	side_busy = true; int k = side_n % 15; const void *r = sl_find(side_l, &k); CHECK(r == (k % 2 || k == 14 ? nullptr : side_v + k / 2), "a look-up in another skip list, from a compare or key function, goes wrong");
	if (side_n % 5 == 0) { sl_insert(side_l, side_v + 7); side_seen = 0; sl_iterate(side_l, side_cb); CHECK(side_seen == 8, "an iteration over another skip list, from a compare or key function, presents %u data of 8", side_seen); sl_delete(side_l, side_v + 7); }
	side_busy = false;
}
static const void *key_self(const void *d) { side(); return d; }
static const void *key_text(const void *d) { side(); return ((const D *)d)->text; }
static const void *key_int(const void *d) { side(); return &((const D *)d)->k; }
static int cmp_int(const void *a, const void *b) { side(); compares++; int x = *(const int *)a, y = *(const int *)b; return x < y ? -mag : x > y ? mag : 0; }
static int cmp_text(const void *a, const void *b) { side(); compares++; return strcmp((const char *)a, (const char *)b); }
static int cmp_ptr(const void *a, const void *b) { side(); compares++; return a < b ? -mag : a > b ? mag : 0; }
static const char *show_d(const void *d) { static char b[40]; snprintf(b, sizeof b, "%d", ((const D *)d)->k); return b; }

struct S {
	sl_List l = nullptr; int kind; std::map<int, const D *> m; Gen *g; std::vector<D> store; int n; std::vector<int> rank; bool deleted = false;
	const void *keyof(int i) { static D probe[4]; static int r; D &p = probe[r++ % 4]; if (kind == 0) { p.k = store[i].k; return &p.k; } if (kind == 1) { memcpy(p.text, store[i].text, sizeof p.text); return p.text; } return &store[i]; }
	void make(Gen &gg, int maxn)
	{
		g = &gg; kind = g->draw(2); n = 1 + g->small(maxn - 1); store.resize(n); mag = g->pick(std::vector<int>{ 1, 2, 256, 0x7fffffff });
		unsigned mul = 2 * g->draw(0x3fffffff) + 1; bool spread = g->flip();
		for (int i = 0; i < n; i++) { store[i].k = spread ? (int)(i * mul) : i - n / 2; snprintf(store[i].text, 24, "%s%d", spread ? "key" : "", i); }
		l = kind == 0 ? sl_create(cmp_int, key_int, g->flip() ? show_d : nullptr) : kind == 1 ? sl_create(cmp_text, key_text, nullptr) : sl_create(cmp_ptr, g->flip() ? key_self : nullptr, nullptr);
		CHECK(l, "sl_create returned NULL");
		// rank: the order of the keys
		std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i;
		std::sort(o.begin(), o.end(), [&](int a, int b) { return kind == 0 ? store[a].k < store[b].k : kind == 1 ? strcmp(store[a].text, store[b].text) < 0 : a < b; });
		rank.resize(n); for (int i = 0; i < n; i++) rank[o[i]] = i;
		g->note("skip list of %s, universe %d, compare magnitude %d", kind == 0 ? "int keys" : kind == 1 ? "text keys" : "pointer keys", n, mag);
	}
	int which(const void *d) { const char *b = (const char *)store.data(), *q = (const char *)d; if (q < b || q >= b + n * sizeof(D) || (q - b) % sizeof(D)) return -1; return (q - b) / sizeof(D); }
	void insert(int i) { sl_insert(l, &store[i]); m[rank[i]] = &store[i]; }
	void erase(int i, bool twin = false) { if (twin && kind != 2) { D t = store[i]; sl_delete(l, &t); } else sl_delete(l, &store[i]); m.erase(rank[i]); deleted = true; }
	bool has(int i) { return m.count(rank[i]); }
	void find(int i) { const void *w = has(i) ? (const void *)&store[i] : nullptr, *r = sl_find(l, keyof(i)); CHECK(r == w, "sl_find of %s key %s gave %p, expected %p", w ? "a present" : "an absent", store[i].text, r, w); }
	void full();
};
struct It { S *s; std::vector<const void *> v; long stop = -1; int val = 1, den = 0; bool changed = false; } *I;
static S *ALL; static int NALL, depth, nests; static void iterate(S &s, Gen *g, bool change);
static int cb(const void *d)
{
	It &it = *I; S &s = *it.s; it.v.push_back(d); int cur = s.which(d); CHECK(cur >= 0, "the iteration presents %p, which is no datum of the list", d);
	if (it.den && s.g->chance(1, it.den)) {
		Gen &g = *s.g; it.changed = true;
		switch (g.draw(g.chance(1, 8) ? 5 : 3)) {
		case 5: if (ALL && depth < 3 && nests < 40) { nests++; S &y = ALL[g.draw(NALL - 1)]; g.note("  at %s:", s.store[cur].text); g.label("nested iteration"); iterate(y, y.g, g.flip()); } break;
		case 4: { g.note("  at %s delete all", s.store[cur].text); g.label("emptied while iterating"); for (int i = 0; i < s.n; i++) if (s.has(i)) s.erase(i); break; }
		case 0: if (s.has(cur)) { g.note("  at %s delete it", s.store[cur].text); s.erase(cur); } break;
		case 1: { int i = g.draw(s.n - 1); if (s.has(i)) { g.note("  at %s delete %s", s.store[cur].text, s.store[i].text); s.erase(i); } break; }
		case 2: { int i = g.draw(s.n - 1); if (!s.has(i)) { g.note("  at %s insert %s", s.store[cur].text, s.store[i].text); s.insert(i); } break; }
		default: s.find(g.draw(s.n - 1)); }
	}
	return (long)it.v.size() == it.stop ? it.val : 0;
}
static int cba(const void *d, void *a) { CHECK(a == I, "the callback got a wrong argument"); return cb(d); }
static void iterate(S &s, Gen *g, bool change)
{
	It it; it.s = &s; std::vector<const void *> want; for (auto &e : s.m) want.push_back(e.second);
	bool arg = false; if (g) { if (!want.empty() && g->chance(1, 3)) it.stop = 1 + g->draw(want.size() - 1); it.val = g->pick(std::vector<int>{ 1, -1, 7, 256, -0x7fffffff - 1 }); arg = g->flip(); if (change) it.den = 1 + g->draw(4); g->note("%s over %zu%s%s", arg ? "sl_iterate_arg" : "sl_iterate", want.size(), change ? ", changing the list" : "", it.stop > 0 ? ", stopped" : ""); }
	It *o = I; I = &it; depth++; int r = arg ? sl_iterate_arg(s.l, cba, &it) : sl_iterate(s.l, cb); I = o; depth--;
	CHECK(r == (it.stop > 0 ? it.val : 0), "the iteration returned %d, expected %d", r, it.stop > 0 ? it.val : 0);
	if (it.stop > 0) want.resize(it.stop);
	CHECK(it.v.size() == want.size(), "the iteration made %zu visits, expected %zu", it.v.size(), want.size());
	for (size_t i = 0; i < want.size(); i++) CHECK(it.v[i] == want[i], "visit %zu presents %s, expected %s", i + 1, s.store[s.which(it.v[i])].text, s.store[s.which(want[i])].text);
	if (g && it.changed && want.size() >= 5) { g->nontrivial(); g->label("changed while iterating"); }
}
void S::full() { for (int i = 0; i < n; i++) find(i); iterate(*this, nullptr, false); }
static void history(Gen &g)
{
	reset_lib(g.draw(0xffffff)); side_l = nullptr; if (g.chance(1, 10)) { side_start(); g.label("functions that use another skip list"); } S s[2]; int ns = 1 + g.draw(1); for (int i = 0; i < ns; i++) s[i].make(g, 200);
	ALL = s; NALL = ns; depth = nests = 0;
	int om = mag; (void)om;
	for (Loop l(g, 100, 1); l.more();) {
		S &x = s[ns > 1 ? g.draw(1) : 0]; int i = g.draw(x.n - 1);
		switch (g.weighted({ 10, 6, 6, 3, 4, 2, 2, 1 })) {
		case 0: if (!x.has(i)) { g.note("insert %s", x.store[i].text); x.insert(i); } break;
		case 1: if (x.has(i)) { g.note("delete %s of %zu", x.store[i].text, x.m.size()); if (x.m.size() >= 5) g.nontrivial(); x.erase(i, g.flip()); } break;
		case 2: x.find(i); break;
		case 3: iterate(x, &g, false); break;
		case 4: iterate(x, &g, true); x.full(); break;
		case 5: { int c = 1 + g.draw(x.n - 1), st = 1 + g.draw(6); g.note("insert %d from %d step %d", c, i, st); for (int k = 0; k < c; k++) { int j = (i + (long)k * st) % x.n; if (!x.has(j)) x.insert(j); } x.full(); break; }
		case 6: { int c = 1 + g.draw(x.n - 1), st = 1 + g.draw(6); g.note("delete %d from %d step %d", c, i, st); for (int k = 0; k < c; k++) { int j = (i + (long)k * st) % x.n; if (x.has(j)) x.erase(j); } x.full(); break; }
		default: g.note("destroy"); sl_destroy(x.l); x.m.clear(); { int k = x.kind; x.l = k == 0 ? sl_create(cmp_int, key_int, show_d) : k == 1 ? sl_create(cmp_text, key_text, nullptr) : sl_create(cmp_ptr, g.flip() ? key_self : nullptr, nullptr); }
		}
	}
	ALL = nullptr; if (side_l) { sl_List d = side_l; side_l = nullptr; sl_destroy(d); }
	for (int i = 0; i < ns; i++) { s[i].full(); if (g.flip()) { std::vector<int> k; for (int j = 0; j < s[i].n; j++) if (s[i].has(j)) k.push_back(j); for (int j : k) s[i].erase(j); s[i].full(); } sl_destroy(s[i].l); }
}
static void illegal(Gen &g)
{
	reset_lib(g.draw(0xffffff)); S x; x.make(g, 60); for (int c = g.draw(x.n); c > 0; c--) { int i = g.draw(x.n - 1); if (!x.has(i)) x.insert(i); }
	int i = g.draw(x.n - 1); bool ins = x.has(i); g.note("%s %s", ins ? "insert present" : "delete absent", x.store[i].text); g.label(ins ? "insert present" : "delete absent"); g.nontrivial();
	Outcome o = run_forked([&] { D t = x.store[i]; const D *d = x.kind == 2 || g.flip() ? &x.store[i] : &t; if (ins) sl_insert(x.l, d); else sl_delete(x.l, d); });
	CHECK(o.aborted() && !o.err.empty(), "%s should be diagnosed and abort: it %s", ins ? "inserting a key already present" : "deleting an absent key", o.str().c_str());
	x.full(); sl_destroy(x.l);
}
static void cost(Gen &g)
{
	reset_lib(g.draw(0xffffff)); S x; x.g = &g; x.kind = 0; mag = 1; int n = x.n = 1000 + g.small(g.chance(1, 10) ? 59000 : 9000); x.store.resize(n); int order = g.draw(3); uint64_t r = g.draw(~0ULL); int churn = g.draw(2);
	static const char *on[] = { "ascending", "descending", "random", "inside out" }; g.note("%d data, %s, churn %d", n, on[order], churn); g.label(on[order]); g.nontrivial();
	x.l = sl_create(cmp_int, key_int, nullptr); std::vector<int> o(n); for (int i = 0; i < n; i++) { o[i] = order == 1 ? n - 1 - i : order == 3 ? (i & 1 ? n / 2 + i / 2 : n / 2 - 1 - i / 2) : i; x.store[i].k = i; snprintf(x.store[i].text, 24, "%d", i); }
	if (order == 3) for (int &v : o) { if (v < 0) v = 0; if (v >= n) v = n - 1; }
	if (order == 2) for (int i = n - 1; i > 0; i--) std::swap(o[i], o[mix64(r + i) % (i + 1)]);
	std::vector<bool> in(n, false); long total = 0;
	compares = 0; for (int i : o) if (!in[i]) { sl_insert(x.l, &x.store[i]); in[i] = true; total++; }
	double lg = 0; for (long k = n; k > 1; k /= 2) lg++;
	double per = (double)compares / total; CHECK(per < 12 * lg + 40, "inserting %ld data took %.0f comparisons each", total, per);
	for (int c = 0; c < churn; c++) { for (int i = 0; i < n; i++) if (in[i] && mix64(r ^ (i * 7 + c)) % 4) { sl_delete(x.l, &x.store[i]); in[i] = false; total--; } for (int i : o) if (!in[i]) { sl_insert(x.l, &x.store[i]); in[i] = true; total++; } }
	compares = 0; for (int k = 0; k < 200; k++) { int i = mix64(r + 77 + k) % n; int key = i; const void *f = sl_find(x.l, &key); CHECK(f == (in[i] ? &x.store[i] : nullptr), "sl_find gave a wrong datum in a list of %ld", total); }
	per = compares / 200.0; CHECK(per < 12 * lg + 40, "a find among %ld data takes %.0f comparisons on average", total, per);
	sl_destroy(x.l);
}
static const char *sc_base; static size_t sc_n, sc_seen, sc_stop; static int sc_step; static sl_List sc_l; static bool sc_del;
static int sc_cb(const void *d) { CHECK(d == sc_base + sc_seen * sc_step, "visit %zu of %zu presents %p, expected %p", sc_seen + 1, sc_n, d, sc_base + sc_seen * sc_step); if (sc_del && sc_seen % 3 == 0) sl_delete(sc_l, d); return ++sc_seen == sc_stop ? 5 : 0; }
static int sc_cba(const void *d, void *) { return sc_cb(d); }
static int sc_cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void at_scale(Gen &g)
{
	reset_lib(g.draw(0xffffff)); static std::vector<char> base(300000); sc_base = base.data(); sc_n = scale(g); if (sc_n > 299999) sc_n = 299999; sc_step = 1; sc_del = false; sl_List l = sc_l = sl_create(sc_cmp, g.flip() ? key_self : nullptr, nullptr); unsigned order = g.draw(2);
	size_t mul = 100003; while (sc_n % mul == 0) mul += 2; g.note("%zu data, order %u", sc_n, order);
	for (size_t i = 0; i < sc_n; i++) sl_insert(l, sc_base + (order == 0 ? i : order == 1 ? sc_n - 1 - i : i * mul % sc_n));
	auto walk = [&](size_t n, size_t stop) { sc_n = n; sc_seen = 0; sc_stop = stop; int r = g.flip() ? sl_iterate(l, sc_cb) : sl_iterate_arg(l, sc_cba, nullptr); CHECK(r == (stop ? 5 : 0), "the iteration returned %d", r); CHECK(sc_seen == (stop ? stop : n), "the iteration made %zu visits to %zu data, expected %zu", sc_seen, n, stop ? stop : n); };
	walk(sc_n, 0); walk(sc_n, sc_n > 65536 ? 65536 + g.draw(sc_n - 65537) + 1 : 1 + g.draw(sc_n - 1)); for (size_t i = 0; i < sc_n; i += 1 + g.draw(9)) CHECK(sl_find(l, sc_base + i) == sc_base + i, "datum %zu of %zu is not found", i, sc_n);
	if (g.flip()) { size_t n = sc_n; for (size_t i = 1; i < n; i += 2) sl_delete(l, sc_base + i); for (size_t i = 0; i < n; i++) CHECK(!sl_find(l, sc_base + i) == (i & 1), "datum %zu of %zu", i, n); sc_step = 2; walk((n + 1) / 2, 0); }
	else { size_t n = sc_n; sc_del = true; walk(n, 0); for (size_t i = 0; i < n; i++) CHECK(!sl_find(l, sc_base + i) == (i % 3 == 0), "datum %zu of %zu, every third of which was deleted while iterating", i, n); }
	sl_destroy(l);
}
// more data than fit a stack of the usual 8 MB as pointers
static void huge(Gen &g)
{
	reset_lib(g.draw(0xffffff)); size_t n = 1060000 + g.draw(100000); static std::vector<char> base(1200000); sc_base = base.data(); sc_n = n; sc_step = 1; sc_del = false; sl_List l = sc_l = sl_create(sc_cmp, nullptr, nullptr); bool up = g.flip(); g.note("%zu data", n); g.nontrivial();
	for (size_t i = 0; i < n; i++) sl_insert(l, sc_base + (up ? i : n - 1 - i));
	for (int k = 0; k < 2; k++) { sc_seen = 0; sc_stop = 0; int r = k ? sl_iterate(l, sc_cb) : sl_iterate_arg(l, sc_cba, nullptr); CHECK(!r && sc_seen == n, "the iteration returned %d after %zu visits to %zu data", r, sc_seen, n); }
	sl_destroy(l);
}
static Target t5("huge", 4, 100, huge, false);
static Target t4("at scale", 40, 1500, at_scale, false);
static Target t1("history", 200000, 1500000, history);
static Target t2("illegal", 5000, 40000, illegal, false);
static Target t3("cost", 1600, 8000, cost, false);
