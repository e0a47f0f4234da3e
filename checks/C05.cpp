#include "lib.h"
const char *PROPERTY = "C05", *LEVEL = "exploration";
const char *RULE = "A case is up to four lists and a history of appends, pushes, pops, replacements (by index and by marker), truncations (by length and at a marker kept from earlier), iterations of every kind with early stops, nested iterations and changes of other lists inside, queries, and destruction and re-creation of lists, against a model sequence of (node, datum) pairs; the list touched is compared after every step and all lists at the end of every phase. "
	"dump: lst_dump must print one line per element, in order; total: lst_total_allocated must grow by the same amount for every list and for every element added. fatal: replacing an element that does not exist must exit with status 1. Non-trivial: an element was replaced, truncated away or popped from a list that was used again afterwards, or a kept marker was used.";
const char *ASSUMPTIONS = "callbacks do not change the list they are shown\na marker is used only while its element is in the list";

struct Node { const void *d; long id; };
struct L { lst_List l = nullptr; std::vector<Node> m; std::map<long, lst_Position> marks; };
static long next_id;
static const void *datum(Gen &g) { static char pool[16]; switch (g.draw(6)) { case 0: return nullptr; case 1: return (const void *)g.wide(64); default: return &pool[g.draw(15)]; } }

struct It { std::vector<const void *> v; long stop; int val; bool nest = false; };
static It *I;
static L *ALL; static int NALL, depth, nests; static Gen *GG; static L *BUSY[4];
static void queries(L &x, Gen &g); static void iterate(L &x, Gen &g);
// while a list is iterated over: further iterations of it and of others, and changes of the others
static void nested()
{
	It *o = I; Gen &g = *GG; L &y = ALL[g.draw(NALL - 1)]; bool busy = false; for (int i = 0; i < depth; i++) busy |= BUSY[i] == &y; g.label(busy ? "nested iteration of the same list" : "other list used during an iteration");
	if (!busy && g.flip()) { const void *d = datum(g); if (g.flip()) lst_append(y.l, d), y.m.push_back({ d, ++next_id }); else if (lst_pop(y.l), !y.m.empty()) y.marks.erase(y.m[0].id), y.m.erase(y.m.begin()); } else iterate(y, g);
	I = o;
}
static int cb(const void *d) { I->v.push_back(d); if (I->nest && nests < 40 && GG->chance(1, 8)) nests++, nested(); return (long)I->v.size() == I->stop ? I->val : 0; }
static int cba(const void *d, void *a) { CHECK(a == I, "the callback got a wrong argument"); return cb(d); }
static void compare(L &x, Gen &g, bool deep)
{
	unsigned n = lst_length(x.l); CHECK(n == x.m.size(), "lst_length is %u, expected %zu", n, x.m.size());
	const void *t = lst_top(x.l), *w = x.m.empty() ? nullptr : x.m[0].d; CHECK(t == w, "lst_top is %p, expected %p", t, w);
	lst_Position last = lst_last_position(x.l); CHECK((last != nullptr) == !x.m.empty(), "lst_last_position is %p for %zu elements", last, x.m.size());
	if (last) CHECK(lst_get_position(last) == x.m.back().d, "the last position holds %p, expected %p", lst_get_position(last), x.m.back().d);
	if (!deep) return;
	lst_Position p; void *e; size_t i = 0;
	LST_ITERATE(x.l, p, e) {
		CHECK(i < x.m.size(), "the list has more than %zu elements", x.m.size());
		CHECK(e == x.m[i].d, "element %zu is %p, expected %p", i + 1, e, x.m[i].d);
		auto k = x.marks.find(x.m[i].id); if (k != x.marks.end()) CHECK(k->second == p, "the marker of element %zu changed", i + 1);
		if (i + 1 == x.m.size()) CHECK(p == last, "lst_last_position is not the last position reached from the head");
		i++;
	}
	CHECK(i == x.m.size(), "iteration by position presents %zu of %zu elements", i, x.m.size());
	(void)g;
}
static void queries(L &x, Gen &g)
{
	size_t n = x.m.size();
	for (unsigned k : std::vector<unsigned>{ 0u, 1u, 2u, (unsigned)n, (unsigned)n + 1, 0xffffffffu, 0x80000000u, (unsigned)g.draw(n + 1) }) {
		const void *w = k >= 1 && k <= n ? x.m[k - 1].d : nullptr, *r = lst_nth_get(x.l, k); CHECK(r == w, "lst_nth_get(%u) of %zu is %p, expected %p", k, n, r, w);
		lst_Position p = lst_nth_position(x.l, k); CHECK((p != nullptr) == (k >= 1 && k <= n), "lst_nth_position(%u) of %zu is %p", k, n, p);
		CHECK(lst_get_position(p) == w, "lst_nth_position(%u) holds %p, expected %p", k, lst_get_position(p), w);
		if (p) { lst_Position q = lst_next_position(p); const void *v = k < n ? x.m[k].d : nullptr; CHECK((q != nullptr) == (k < n) && lst_get_position(q) == v, "the position after number %u of %zu holds %p, expected %p", k, n, lst_get_position(q), v); if (k == 1) CHECK(p == lst_init_position(x.l), "lst_init_position is not the first position"); if (k == n) CHECK(p == lst_last_position(x.l), "lst_last_position is not the n-th position"); }
	}
	for (int i = 0; i < 4; i++) { const void *d = i < 2 || !n ? datum(g) : x.m[g.draw(n - 1)].d; bool w = false; for (auto &e : x.m) w |= e.d == d; int r = lst_member(x.l, d); CHECK(!!r == w, "lst_member is %d for a datum that is %sin the list", r, w ? "" : "not "); }
	if (!n) CHECK(!lst_init_position(x.l), "an empty list has a first position");
	CHECK(!lst_next_position(nullptr) && !lst_get_position(nullptr), "the NULL position has a successor or a datum"); lst_set_position(nullptr, &n);
	iterate(x, g);
}
static void iterate(L &x, Gen &g)
{
	size_t n = x.m.size();
	It it; it.stop = n && g.flip() ? 1 + (long)g.draw(n - 1) : -1; it.val = g.pick(std::vector<int>{ 1, -1, 256, 1 << 30 }); I = &it;
	bool arg = g.flip(); it.nest = ALL && depth < 3 && n < 100 && g.chance(1, 3); GG = &g; BUSY[depth++] = &x; int r = arg ? lst_iterate_arg(x.l, cba, &it) : lst_iterate(x.l, cb); depth--;
	CHECK(!!r == (it.stop > 0), "lst_iterate returned %d although it was %s", r, it.stop > 0 ? "stopped" : "complete");
	size_t want = it.stop > 0 ? it.stop : n; CHECK(it.v.size() == want, "lst_iterate made %zu visits, expected %zu", it.v.size(), want);
	for (size_t i = 0; i < want; i++) CHECK(it.v[i] == x.m[i].d, "visit %zu of lst_iterate shows %p, expected %p", i + 1, it.v[i], x.m[i].d);
}
static void drop_marks(L &x, size_t from) { for (size_t i = from; i < x.m.size(); i++) x.marks.erase(x.m[i].id); }
static void history(Gen &g)
{
	reset_lib(); next_id = 0; L p[4]; int n = 1 + g.draw(3); size_t cap = g.chance(1, 30) ? 2000 : 60;
	for (int i = 0; i < n; i++) { p[i].l = lst_create(); CHECK(p[i].l, "lst_create returned NULL"); }
	bool removed = false; ALL = p; NALL = n; depth = nests = 0;
	for (Loop l(g, 150, 1); l.more();) {
		int w = g.draw(n - 1); L &x = p[w]; size_t k = x.m.size();
		unsigned op = g.weighted({ 10, 6, 6, 3, 2, 3, 2, 2, 2, 1, 2, 1 });
		switch (op) {
		case 0: { const void *d = datum(g); g.note("l%d append %p", w, d); lst_append(x.l, d); x.m.push_back({ d, ++next_id }); if (removed) g.nontrivial(); break; }
		case 1: { const void *d = datum(g); g.note("l%d push %p", w, d); lst_push(x.l, d); x.m.insert(x.m.begin(), { d, ++next_id }); if (removed) g.nontrivial(); break; }
		case 2: { g.note("l%d pop of %zu", w, k); const void *want = k ? x.m[0].d : nullptr, *r = lst_pop(x.l); CHECK(r == want, "lst_pop of %zu elements gave %p, expected %p", k, r, want); if (k) { x.marks.erase(x.m[0].id); x.m.erase(x.m.begin()); removed = true; } break; }
		case 3: if (k) { size_t i = g.draw(k - 1); const void *d = datum(g); g.note("l%d set %zu of %zu to %p", w, i + 1, k, d); lst_nth_set(x.l, i + 1, d); x.m[i].d = d; g.nontrivial(); compare(x, g, true); } break;
		case 4: { unsigned t = g.chance(1, 8) ? (unsigned)g.wide(32) : (unsigned)g.draw(k + 2); g.note("l%d truncate %zu to %u", w, k, t); g.label("truncate"); lst_truncate(x.l, t); if (t < k) { drop_marks(x, t); x.m.resize(t); removed = true; } compare(x, g, true); break; }
		case 5: { // keep a marker
			if (!k) break; size_t i = g.flip() ? k - 1 : g.draw(k - 1); lst_Position q = i == k - 1 ? lst_last_position(x.l) : i ? lst_nth_position(x.l, i + 1) : lst_init_position(x.l); g.note("l%d mark %zu", w, i + 1); CHECK(q, "no marker for element %zu of %zu", i + 1, k); x.marks[x.m[i].id] = q; break; }
		case 6: { // restore the state at a marker, or empty the list
			lst_Position q = nullptr; size_t keep = 0; if (!x.marks.empty() && g.chance(3, 4)) { auto it = x.marks.begin(); std::advance(it, g.draw(x.marks.size() - 1)); q = it->second; for (size_t i = 0; i < k; i++) if (x.m[i].id == it->first) keep = i + 1; CHECK(keep, "harness: lost marker"); g.nontrivial(); g.label("truncate at marker"); }
			else if (!g.chance(1, 3)) break;
			g.note("l%d truncate %zu at position %zu", w, k, keep); lst_truncate_position(x.l, q); drop_marks(x, keep); x.m.resize(keep); removed = true; compare(x, g, true); break; }
		case 7: if (!x.marks.empty()) { auto it = x.marks.begin(); std::advance(it, g.draw(x.marks.size() - 1)); const void *d = datum(g); g.note("l%d set marker to %p", w, d); lst_set_position(it->second, d); for (auto &e : x.m) if (e.id == it->first) e.d = d; g.nontrivial(); g.label("set at marker"); compare(x, g, true); } break;
		case 8: queries(x, g); break;
		case 9: g.note("l%d destroy", w); g.label("destroy and create"); lst_destroy(x.l); x.m.clear(); x.marks.clear(); x.l = lst_create(); removed = true; break;
		case 10: { size_t c = g.draw(cap); bool front = g.draw(3) == 0; g.note("l%d %s of %zu", w, front ? "pushes" : "appends", c); for (size_t i = 0; i < c; i++) { const void *d = (const void *)(i + 1); if (front) lst_push(x.l, d), x.m.insert(x.m.begin(), { d, ++next_id }); else lst_append(x.l, d), x.m.push_back({ d, ++next_id }); } if (c > 500) g.label("more than 500 elements"); compare(x, g, true); break; }
		default: { // two lists side by side
			L &y = p[g.draw(n - 1)]; lst_Position a, b; void *e, *f; size_t i = 0; LST_ITERATE2(x.l, y.l, a, b, e, f) { CHECK(i < x.m.size() && i < y.m.size() && e == x.m[i].d && f == y.m[i].d, "LST_ITERATE2: wrong pair at %zu", i + 1); i++; }
			CHECK(i == std::min(x.m.size(), y.m.size()), "LST_ITERATE2 presented %zu pairs", i); }
		}
		compare(x, g, x.m.size() < 40);
	}
	for (int i = 0; i < n; i++) { compare(p[i], g, true); queries(p[i], g); }
	ALL = nullptr;
	for (int i = 0; i < n; i++) { g.note("l%d final destroy", i); lst_destroy(p[i].l); for (int j = i + 1; j < n; j++) compare(p[j], g, true); }
}
static void dump(Gen &g)
{
	reset_lib(); lst_List l = lst_create(); std::vector<const void *> m; unsigned n = g.small(40);
	for (unsigned i = 0; i < n; i++) { const void *d = datum(g); if (g.flip()) lst_append(l, d), m.push_back(d); else lst_push(l, d), m.insert(m.begin(), d); }
	if (n && g.flip()) { unsigned t = g.draw(n); lst_truncate(l, t); m.resize(std::min<size_t>(t, m.size())); g.nontrivial(); } if (!m.empty() && g.flip()) { lst_pop(l); m.erase(m.begin()); g.nontrivial(); }
	g.note("dump of %zu elements", m.size());
	Outcome o = run_forked([&] { lst_dump(l); fflush(stdout); }); must_return(o, "lst_dump");
	std::vector<std::string> lines; for (size_t i = 0; i < o.out.size();) { size_t e = o.out.find('\n', i); if (e == std::string::npos) e = o.out.size(); lines.push_back(o.out.substr(i, e - i)); i = e + 1; }
	CHECK(lines.size() == m.size(), "lst_dump of %zu elements printed %zu lines", m.size(), lines.size());
	for (size_t i = 0; i < m.size(); i++) { char h[32]; if (m[i]) snprintf(h, sizeof h, "%lx", (unsigned long)m[i]); else strcpy(h, "nil"); const std::string &s = lines[i]; size_t a = s.find_last_of(" x("); std::string v = a == std::string::npos ? s : s.substr(a + 1); if (!v.empty() && v.back() == ')') v.pop_back(); CHECK(v == h || (!m[i] && strtoul(v.c_str(), nullptr, 16) == 0), "line %zu of lst_dump is '%s', expected datum %p", i + 1, s.c_str(), m[i]); }
	lst_destroy(l);
}
static void total(Gen &g)
{
	reset_lib(); long t0 = lst_total_allocated(); lst_List a = lst_create(); long sl = lst_total_allocated() - t0; lst_append(a, a); long sd = lst_total_allocated() - t0 - sl, want = lst_total_allocated(); CHECK(sl > 0 && sd > 0, "lst_total_allocated grew by %ld for a list and %ld for an element", sl, sd);
	std::vector<lst_List> v{ a };
	for (Loop l(g, 60, 1); l.more();) {
		unsigned op = g.weighted({ 2, 6, 4, 4, 1, 1 }); lst_List x = v.empty() ? nullptr : v[g.draw(v.size() - 1)]; if (op && !x) continue;
		switch (op) {
		case 0: v.push_back(lst_create()); want += sl; break;
		case 1: lst_append(x, a); want += sd; break;
		case 2: lst_push(x, a); want += sd; break;
		case 3: lst_pop(x); g.nontrivial(); break;
		case 4: lst_truncate(x, g.draw(5)); g.nontrivial(); break;
		default: lst_destroy(x); v.erase(std::find(v.begin(), v.end(), x)); g.nontrivial(); }
		long got = lst_total_allocated(); CHECK(got == want, "lst_total_allocated is %ld, expected %ld (operation %u)", got, want, op);
	}
	for (auto x : v) lst_destroy(x);
}
static void fatal(Gen &g)
{
	reset_lib(); lst_List l = lst_create(); unsigned n = g.small(20); for (unsigned i = 0; i < n; i++) lst_append(l, (void *)(uintptr_t)(i + 1));
	unsigned k = g.draw(2) == 0 ? n + 1 : g.flip() ? 0 : n + 1 + (unsigned)g.draw(0x7fffffff); if (g.chance(1, 4)) lst_truncate(l, 0), n = 0; if (k >= 1 && k <= n) k = 0;
	g.note("set element %u of %u", k, n); g.nontrivial();
	Outcome o = run_forked([&] { lst_nth_set(l, k, "x"); });
	CHECK(o.exit1() && !o.err.empty(), "replacing element %u of %u should be a fatal error: it %s", k, n, o.str().c_str());
	lst_destroy(l);
}
static void at_scale(Gen &g)
{
	reset_lib(); next_id = 0; L x; x.l = lst_create(); unsigned n = scale(g); bool front = g.flip(); g.note("%u %s", n, front ? "pushes" : "appends"); x.m.resize(n);
	for (unsigned i = 0; i < n; i++) { const void *d = (const void *)(uintptr_t)(i + 1); if (front) lst_push(x.l, d), x.m[n - 1 - i] = { d, ++next_id }; else lst_append(x.l, d), x.m[i] = { d, ++next_id }; }
	compare(x, g, true); queries(x, g);
	for (Loop l(g, 6, 1); l.more();) { size_t k = x.m.size(); if (!k) break;
		switch (g.draw(3)) { case 0: { unsigned i = g.draw(k - 1); const void *d = datum(g); g.note("set %u of %zu", i + 1, k); lst_nth_set(x.l, i + 1, d); x.m[i].d = d; break; }
		case 1: { unsigned c = g.flip() ? 65536 - g.draw(2) : g.draw(k); if (c > k) c = k; g.note("%u pops of %zu", c, k); for (unsigned i = 0; i < c; i++) { const void *r = lst_pop(x.l); CHECK(r == x.m[i].d, "pop %u of %zu gave %p, expected %p", i + 1, k, r, x.m[i].d); } x.m.erase(x.m.begin(), x.m.begin() + c); break; }
		case 2: { unsigned t = g.flip() ? g.draw(k) : 65535 + g.draw(2); g.note("truncate %zu to %u", k, t); lst_truncate(x.l, t); if (t < k) x.m.resize(t); break; }
		default: { unsigned c = g.draw(70000); g.note("%u appends to %zu", c, k); for (unsigned i = 0; i < c; i++) { lst_append(x.l, &x); x.m.push_back({ &x, ++next_id }); } } }
		compare(x, g, true); queries(x, g); }
	lst_destroy(x.l);
}
static Target t5("at scale", 60, 2000, at_scale, false);
static Target t1("history", 360000, 3000000, history);
static Target t3("dump", 2000, 20000, dump, false);
static Target t4("total", 20000, 200000, total);
static Target t2("fatal", 4000, 20000, fatal, false);
