#include "keys.h"
const char *PROPERTY = "C02", *LEVEL = "exploration";
const char *RULE = "A case fills one or two hash tables over a generated key universe (see keys.h) and performs a sequence of iterations of every kind (callback, callback with argument, HSH_ITERATE, HSH_ITERATE_KEYS, bare positions, nested ones) in which the body looks keys up, deletes the entry shown, iterates again, sets and clears the readonly flag, uses another table, or stops, mixed with inserts and deletes; "
	"the multiset of visits is compared with a map model and a full scan follows. guarded: while the table is readonly, a mutation is attempted in a child and must abort with a report. Non-trivial: an iteration over at least 3 entries with a look-up, deletion or early stop, or a guarded mutation.";
const char *ASSUMPTIONS = "callbacks do not insert, and do not delete entries other than the one they are shown";

struct Ent { const void *key, *datum; };
struct T {
	Universe u; hsh_HashTable t = nullptr; std::map<int, Ent> m; char data[64]; Gen *g; int which;
	void insert(int i, int c) { if (m.count(i)) return; const void *d = g->chance(1, 8) ? nullptr : &data[g->draw(63)]; int r = hsh_insert(t, u.ptr(i, c), d); CHECK(r == 0, "hsh_insert of an absent key returned %d", r); m[i] = Ent{ u.ptr(i, c), d }; }
	void get(int i) { auto it = m.find(i); const void *w = it == m.end() ? nullptr : it->second.datum, *r = hsh_retrieve(t, u.ptr(i, 1)); CHECK(r == w, "hsh_retrieve of %s gave %p, expected %p", u.show(i).c_str(), r, w); }
	void contents() { for (int i = 0; i < u.n; i++) get(i); hsh_Stats s = hsh_get_stats(t); CHECK(s->entries == m.size(), "%lu entries, expected %zu", s->entries, m.size()); xfree(s); u.unchanged(); }
};
struct Walk {
	T *t; std::map<int, Ent> start; std::set<int> seen; unsigned visits = 0; long stop_at; int stop_val; unsigned del_den, look_den, in_den = 0; int depth = 0; bool look_last; int nest; bool stopped = false, did = false;
	const char *how;
};
static Walk *W;
static int visit(const void *key, const void *datum, bool can_delete);
static int cb(const void *k, const void *d) { return visit(k, d, true); }
static int cb_arg(const void *k, const void *d, void *arg) { CHECK(arg == W, "the callback got argument %p instead of %p", arg, (void *)W); return visit(k, d, true); }
static int count_cb(const void *, const void *) { static_cast<Walk *>(W)->did = true; W->nest++; return 0; }
// What a body may do besides: iterate over the same table (to the end or not), set and clear the flag, ask for statistics.
static void inside(Walk &w, bool callback)
{
	T &t = *w.t; Gen &g = *t.g; w.did = true; g.label("operations inside an iteration");
	switch (g.weighted({ 5, 2, callback ? 2u : 0u, callback ? 2u : 0u, 1 })) {
	case 0: { Walk in; in.t = &t; in.start = t.m; in.nest = 0; in.depth = w.depth + 1; in.del_den = 0; in.look_den = g.chance(1, 3) ? 2 : 0; in.in_den = in.depth < 3 && g.flip() ? 3 : 0; in.stop_at = t.m.empty() || g.chance(1, 3) ? -1 : 1 + g.draw(g.flip() ? 3 : t.m.size() - 1); in.stop_val = 3; int arg = g.flip(); in.how = "a nested iteration";
		g.note("  nested iteration%s", in.stop_at > 0 ? ", stops" : ""); W = &in; int r = arg ? hsh_iterate_arg(t.t, cb_arg, &in) : hsh_iterate(t.t, cb); W = &w; CHECK(!!r == in.stopped, "a nested iteration returned %d although it was %s", r, in.stopped ? "stopped" : "not stopped"); if (!in.stopped) CHECK(in.visits == in.start.size(), "a nested iteration presented %u of %zu entries", in.visits, in.start.size()); break; }
	case 1: { hsh_Stats s = hsh_get_stats(t.t); CHECK(s->entries == t.m.size(), "%lu entries, expected %zu", s->entries, t.m.size()); xfree(s); break; }
	case 2: { int was = hsh_readonly(t.t, 1); for (int n = g.draw(3); n; n--) t.get(g.draw(t.u.n - 1)); int now = hsh_readonly(t.t, was); CHECK(now == 1, "the flag is %d after setting it inside a callback", now); now = hsh_readonly(t.t, was); CHECK(now == was, "the flag is %d after setting it to %d inside a callback", now, was); g.note("  set and clear the readonly flag"); break; }
	case 3: { void *k, *d; hsh_Position p; size_t n = 0, stop = g.flip() ? 1 + g.draw(3) : 0; int was = hsh_readonly(t.t, 0); g.note("  nested position iteration"); HSH_ITERATE(t.t, p, k, d) { int i = t.u.which(k); CHECK(i >= 0 && t.m.count(i), "a nested position iteration presents a wrong entry"); if (++n == stop) { HSH_ITERATE_END(t.t); break; } } if (!stop || n < stop) CHECK(n == t.m.size(), "a nested position iteration presented %zu of %zu entries", n, t.m.size()); hsh_readonly(t.t, was); break; }
	default: t.get(g.draw(t.u.n - 1)); }
}
static int visit(const void *key, const void *datum, bool can_delete)
{
	Walk &w = *W; T &t = *w.t; Gen &g = *t.g;
	CHECK(!w.stopped, "%s went on after the callback returned non-zero", w.how);
	int i = t.u.which(key); auto it = i < 0 ? w.start.end() : w.start.find(i);
	CHECK(it != w.start.end(), "%s presented %p, which is no live key", w.how, key);
	CHECK(it->second.key == key, "%s presented another copy of key %s than the one inserted", w.how, t.u.show(i).c_str());
	CHECK(it->second.datum == datum, "%s presented datum %p for key %s, expected %p", w.how, datum, t.u.show(i).c_str(), it->second.datum);
	CHECK(w.seen.insert(i).second, "%s presented key %s twice", w.how, t.u.show(i).c_str());
	w.visits++;
	if (can_delete && w.del_den && g.chance(1, w.del_den)) { g.note("  delete %s while shown", t.u.show(i).c_str()); int r = hsh_delete(t.t, t.u.ptr(i, 2)); CHECK(r == 0, "hsh_delete of the entry shown returned %d", r); t.m.erase(i); w.did = true; }
	if (w.look_den && g.chance(1, w.look_den)) {
		int n = 1 + g.draw(3); w.did = true;
		while (n--) { int j = g.draw(t.u.n - 1); g.note("  at %s look up %s", t.u.show(i).c_str(), t.u.show(j).c_str()); t.get(j); }
		if (g.chance(1, 6)) for (int j = t.u.n - 1; j >= 0; j--) t.get(j);
	}
	if (w.in_den && w.visits < 9 && g.chance(1, w.in_den)) { inside(w, can_delete); if (g.flip()) for (int n = 1 + g.draw(3); n; n--) t.get(g.draw(t.u.n - 1)); }
	if ((long)w.visits == w.stop_at) { w.stopped = true; g.note("  stop at %s", t.u.show(i).c_str()); return w.stop_val; }
	return 0;
}
static void walk(T &t, Gen &g, int kind)
{
	Walk w; w.t = &t; w.start = t.m; w.nest = 0; W = &w;
	w.stop_at = t.m.empty() || g.chance(2, 3) ? -1 : 1 + g.draw(t.m.size() - 1);
	w.stop_val = g.pick(std::vector<int>{ 1, -1, 2, 256, -0x7fffffff - 1 });
	w.del_den = kind < 2 && g.flip() ? 1 + g.draw(3) : 0; w.look_den = g.flip() ? 1 + g.draw(3) : 0; w.in_den = g.chance(1, 3) ? 2 + g.draw(3) : 0;
	static const char *names[] = { "hsh_iterate", "hsh_iterate_arg", "HSH_ITERATE", "HSH_ITERATE_KEYS", "position iteration" }; w.how = names[kind];
	g.note("t%d %s over %zu entries%s%s%s", t.which, w.how, t.m.size(), w.stop_at > 0 ? ", stops" : "", w.del_den ? ", deletes" : "", w.look_den ? ", looks up" : ""); g.label(w.how);
	std::map<int, Ent> m0 = t.m; int r = 0; bool completed = true;
	hsh_Position p; void *k, *d;
	switch (kind) {
	case 0: r = hsh_iterate(t.t, cb); break;
	case 1: r = hsh_iterate_arg(t.t, cb_arg, &w); break;
	case 2: HSH_ITERATE(t.t, p, k, d) if (visit(k, d, false)) { completed = false; break; } break;
	case 3: HSH_ITERATE_KEYS(t.t, p, k) { int i = t.u.which(k); if (visit(k, i < 0 || !t.m.count(i) ? nullptr : t.m[i].datum, false)) { completed = false; break; } } break;
	default: for (p = hsh_init_position(t.t); p; p = hsh_next_position(t.t, p)) { k = &k; d = hsh_get_position(p, &k); if (visit(k, d, false)) { completed = false; break; }
			if (g.chance(1, 6)) { k = &k; void *d2 = hsh_get_position(p, &k); CHECK(d2 == d, "the datum at a position changed from %p to %p", d, d2); } } break;
	}
	if (kind < 2) { CHECK(!!r == w.stopped, "%s returned %d although it was %s", w.how, r, w.stopped ? "stopped" : "not stopped"); }
	else {
		int ro;
		if (!completed) {
			bool full = g.flip();
			ro = hsh_readonly(t.t, 1); CHECK(ro == 1, "the table is not readonly during a position iteration (flag %d)", ro);
			HSH_ITERATE_END(t.t); (void)full;
		} 
		ro = hsh_readonly(t.t, 0); CHECK(ro == 0, "the table is readonly (%d) after the position iteration %s", ro, completed ? "was complete" : "was ended");
	}
	if (!w.stopped) CHECK(w.visits == w.start.size(), "%s presented %u of %zu entries", w.how, w.visits, w.start.size());
	if (w.start.size() >= 3 && (w.did || w.stopped)) g.nontrivial();
	t.contents();
}
static void setup(T &t, Gen &g, int which, int maxn) { t.g = &g; t.which = which; make_universe(g, t.u, maxn); t.t = hsh_create(t.u.hash, t.u.cmp); int n = g.draw(t.u.n); for (int k = 0; k < n; k++) t.insert(g.flip() ? k : g.draw(t.u.n - 1), k); }
static void iterate(Gen &g)
{
	reset_lib(g.draw(0xffff));
	T t[2]; int nt = 1 + g.draw(1); for (int i = 0; i < nt; i++) setup(t[i], g, i, 120);
	for (Loop l(g, 14, 1); l.more();) {
		T &x = t[nt > 1 ? g.draw(1) : 0];
		switch (g.weighted({ 10, 3, 2, 1, 1 })) {
		case 0: walk(x, g, g.draw(4)); break;
		case 1: { int n = 1 + g.draw(20); g.note("t%d insert up to %d", x.which, n); while (n--) x.insert(g.draw(x.u.n - 1), n); break; }
		case 2: { int i = g.draw(x.u.n - 1); g.note("t%d delete %s", x.which, x.u.show(i).c_str()); int r = hsh_delete(x.t, x.u.ptr(i)); CHECK(r == !x.m.erase(i), "hsh_delete returned %d", r); break; }
		case 3: { // two position iterations at once, over two tables or twice over one
			T &y = t[nt - 1]; std::set<int> a; void *k, *k2, *d; hsh_Position p, q; size_t lim = 0; g.note("t%d x t%d nested iteration", x.which, y.which); g.label("nested positions");
			HSH_ITERATE(x.t, p, k, d) {
				int i = x.u.which(k); CHECK(i >= 0 && x.m.count(i) && a.insert(i).second && x.m[i].datum == d, "outer iteration: wrong or repeated entry");
				if (++lim > 6) continue;
				std::set<int> b; HSH_ITERATE_KEYS(y.t, q, k2) { int j = y.u.which(k2); CHECK(j >= 0 && y.m.count(j) && b.insert(j).second, "inner iteration: wrong or repeated key"); }
				CHECK(b.size() == y.m.size(), "inner iteration presented %zu of %zu entries", b.size(), y.m.size());
			}
			CHECK(a.size() == x.m.size(), "outer iteration presented %zu of %zu entries", a.size(), x.m.size());
			CHECK(!hsh_readonly(x.t, 0), "table still readonly after nested iterations"); hsh_readonly(y.t, 0); break; }
		default: { // callback iteration inside a callback iteration, readonly or not
			int ro = g.draw(1); hsh_readonly(x.t, ro); Walk w; w.t = &x; W = &w; g.note("t%d hsh_iterate with readonly %d", x.which, ro);
			w.nest = 0; int r = hsh_iterate(x.t, count_cb); CHECK(!r && w.nest == (int)x.m.size(), "hsh_iterate made %d visits to %zu entries and returned %d", w.nest, x.m.size(), r);
			int was = hsh_readonly(x.t, 0); CHECK(was == ro, "a callback iteration changed the readonly flag from %d to %d", ro, was); }
		}
	}
	for (int i = 0; i < nt; i++) { t[i].contents(); hsh_destroy(t[i].t); }
}
static void guarded(Gen &g)
{
	reset_lib(); T t; setup(t, g, 0, 60); if (g.chance(1, 10)) { while (!t.m.empty()) { hsh_delete(t.t, t.u.ptr(t.m.begin()->first)); t.m.erase(t.m.begin()); } g.label("empty table"); }
	int how = t.m.empty() ? 0 : g.draw(2), op = g.draw(3); hsh_Position p = nullptr; size_t at = 0; std::set<int> seen; void *k, *d;
	static const char *hown[] = { "flag set", "position iteration begun", "position iteration advanced" }, *opn[] = { "insert", "delete", "destroy", "insert of a present key" };
	auto take = [&] { d = hsh_get_position(p, &k); int i = t.u.which(k); CHECK(i >= 0 && t.m.count(i) && t.m[i].datum == d && seen.insert(i).second, "position iteration presents a wrong or repeated entry"); };
	if (how == 0) { int r = hsh_readonly(t.t, 1); CHECK(r == 0, "hsh_readonly returned %d, expected 0", r); }
	else { p = hsh_init_position(t.t); CHECK(p, "no first position in a table of %zu", t.m.size()); take(); if (how == 2) { at = g.draw(t.m.size() - 1); for (size_t i = 0; i < at; i++) { p = hsh_next_position(t.t, p); CHECK(p, "the position iteration ended after %zu of %zu entries", i + 1, t.m.size()); take(); } } }
	int i = g.draw(t.u.n - 1); if (op == 3) { if (t.m.empty()) op = 0; else i = t.m.begin()->first; }
	g.note("%s; %s %s", hown[how], opn[op], t.u.show(i).c_str()); g.label(opn[op]); g.nontrivial();
	for (int n = g.draw(6); n; n--) t.get(g.draw(t.u.n - 1));
	Outcome o = run_forked([&] { switch (op) { case 1: hsh_delete(t.t, t.u.ptr(i)); break; case 2: hsh_destroy(t.t); break; default: hsh_insert(t.t, t.u.ptr(i), "x"); } });
	CHECK(o.aborted() && !o.err.empty(), "%s while readonly (%s) should be diagnosed and abort: it %s", opn[op], hown[how], o.str().c_str());
	for (int j = 0; j < t.u.n; j++) t.get(j);
	if (how) {
		while ((p = hsh_next_position(t.t, p))) take();
		CHECK(seen.size() == t.m.size(), "the position iteration presented %zu of %zu entries", seen.size(), t.m.size());
		CHECK(hsh_readonly(t.t, 0) == 0, "still readonly after the position iteration ended");
	} else { int r = hsh_readonly(t.t, g.draw(1)); CHECK(r == 1, "hsh_readonly returned %d, expected 1", r); hsh_readonly(t.t, 0); }
	t.insert(t.u.n - 1, 0); t.contents(); hsh_destroy(t.t);
}
static void print_keys(Gen &g)
{
	reset_lib(); T t; t.g = &g; t.which = 0; do { t.u = Universe(); make_universe(g, t.u, 60); } while (0);
	if (t.u.kind != K_STRING) return;
	t.t = hsh_create(t.u.hash, t.u.cmp); int n = g.draw(t.u.n); for (int k = 0; k < n; k++) t.insert(k, k);
	Outcome o = run_forked([&] { hsh_key_strings(t.t); });
	CHECK(o.returned, "hsh_key_strings: %s", o.str().c_str());
	std::multiset<std::string> want, got; for (auto &e : t.m) want.insert((const char *)e.second.key);
	std::string s = o.out; if (!s.empty() && s.back() == '\n') s.pop_back();
	for (size_t p = 0, e; (e = s.find("  ", p)) != std::string::npos; p = e + 2) { std::string w = s.substr(p, e - p); while (!w.empty() && w[0] == '\n') w.erase(0, 1); got.insert(w); }
	CHECK(want == got, "hsh_key_strings printed %s for a table of %zu keys", printable(o.out, 300).c_str(), want.size());
	if (want.size() >= 3) g.nontrivial();
	hsh_destroy(t.t);
}
static Target t1("iterate", 180000, 1200000, iterate);
static Target t2("guarded", 10000, 100000, guarded, false);
static Target t3("print keys", 3000, 30000, print_keys, false);
