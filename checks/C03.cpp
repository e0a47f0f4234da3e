#include "setw.h"
const char *PROPERTY = "C03", *LEVEL = "exploration";
const char *RULE = "A case is one or two sets over generated universes (keys.h: hash and compare functions of many kinds, equal copies at different addresses) and a history of inserts, deletes, membership tests, counts, statistics, bulk phases, readonly toggles and iterations of every kind (with early stops, membership tests and further iterations of the same or the other set inside, the other set changed meanwhile, positions left early) against a map model. "
	"guarded: a modification while readonly (flag, inside a callback, during a position iteration) must abort with a report, and the previous readonly state must be back afterwards. Non-trivial: the set was resized, or a deleted element was looked up, or an iteration was stopped early.";
const char *ASSUMPTIONS = "hash and compare functions are pure and consistent with each other\nhits are checked exactly only where the chain position is observable";

static SetT *IN; static int in_den; static bool in_nested; static SetT *ALL; static int NALL, in_depth;
static void iterate(SetT &x, Gen &g);
// while a set is iterated over: other iterations of it and of the other set, and changes of the other set
static void nested(Gen &g)
{
	SetT *in = IN; int den = in_den; SetT::Collect *o = SetT::C; SetT &y = NALL > 1 && g.flip() ? ALL[IN == ALL ? 1 : 0] : *IN; g.label(&y == in ? "nested iteration of the same set" : "other set used during an iteration");
	if (&y != in && !y.ro && g.flip()) { int i = g.draw(y.u->n - 1); if (g.flip()) y.insert(i, 0); else y.erase(i, 0); y.count(); }
	else iterate(y, g);
	IN = in; in_den = den; in_nested = true; SetT::C = o;
}
static int probe(const void *e) { Gen &g = *IN->g; if (in_den && g.chance(1, in_den)) { IN->member(g.draw(IN->u->n - 1), 1); }
	if (in_nested && in_depth < 3 && g.chance(1, 12)) nested(g);
	return SetT::cb(e); }
static int proba(const void *e, void *a) { CHECK(a == SetT::C, "the callback got a wrong argument"); return probe(e); }
static void iterate(SetT &x, Gen &g)
{
	SetT::Collect c; c.stop = !x.m.empty() && g.chance(1, 3) ? (long)g.draw(x.m.size() - 1) : -1; c.val = g.pick(std::vector<int>{ 1, -1, 256, 1 << 30 }); SetT::C = &c; IN = &x;
	in_den = g.flip() ? 1 + g.draw(4) : 0; in_nested = ALL && in_depth < 2 && g.chance(1, in_depth ? 8 : 4);
	bool ro = x.ro, in = x.within; int kind = g.draw(in ? 1 : 3); x.within = true; in_depth++; static const char *n[] = { "set_iterate", "set_iterate_arg", "SET_ITERATE", "position iteration" };
	g.note("%s %s%s over %zu", x.name.c_str(), n[kind], c.stop >= 0 ? " stopped early" : "", x.m.size()); g.label(n[kind]);
	bool stopped = c.stop >= 0; if (stopped && x.m.size() > 2) g.nontrivial();
	if (kind < 2) {
		x.ro = true; int r = kind ? set_iterate_arg(x.s, proba, &c) : set_iterate(x.s, probe);
		CHECK(!!r == stopped, "%s returned %d although it was %s", n[kind], r, stopped ? "stopped" : "complete");
		x.ro = ro; int f = set_readonly(x.s, ro); CHECK(f == (int)ro, "%s left the readonly flag at %d, it was %d", n[kind], f, (int)ro);
	} else {
		set_Position p; void *e; bool left = false; if (!x.m.empty()) x.ro = true;
		if (kind == 2) { SET_ITERATE(x.s, p, e) if (probe(e)) { left = true; break; } }
		else for (p = set_init_position(x.s); p; p = set_next_position(x.s, p)) { e = set_get_position(p); if (probe(e)) { left = true; break; } CHECK(set_get_position(p) == e, "the element at a position changed"); }
		if (left) { int f = set_readonly(x.s, 1); CHECK(f == 1, "the set is not readonly during a position iteration"); SET_ITERATE_END(x.s); }
		int f = set_readonly(x.s, 0); if (x.m.empty()) f = 0; CHECK(!f, "the set is readonly after the position iteration %s", left ? "was ended" : "was complete"); x.ro = false;
		CHECK(left == stopped, "the position iteration ended early");
	}
	x.within = in; in_depth--; x.compare(c.v, n[kind], !stopped); if (stopped) CHECK((long)c.v.size() == c.stop + 1, "%s went on after a non-zero return: %zu visits instead of %ld", n[kind], c.v.size(), c.stop + 1);
}
static void growth(SetT &x, unsigned long before) { set_Stats s = x.stats(); CHECK(before * 2 <= s->size, "an insertion was made into a set of %lu buckets holding %lu elements: more than half full", s->size, before); xfree(s); }
static void print(SetT &x)
{
	FILE *f = tmpfile(); set_print_stats(x.s, f); std::string s = slurp(f); same_on_stdout(s, [&](FILE *h) { set_print_stats(x.s, h); }); set_Stats st = x.stats(); char b[600]; size_t nl = s.find('\n');
	int n = snprintf(b, sizeof b, "   %lu resizings to %lu total\n   %lu entries (%lu buckets used, %lu without overflow)\n   maximum list length is %lu", st->resizings, st->size, st->entries, st->buckets_used, st->singletons, st->maximum_length);
	if (st->buckets_used) n += snprintf(b + n, sizeof b - n, " (optimal is %.1f)", (double)st->entries / st->buckets_used);
	snprintf(b + n, sizeof b - n, "\n   %lu retrievals (%lu from top, %lu failed)\n", st->retrievals, st->hits, st->misses);
	CHECK(nl != std::string::npos && s.substr(nl + 1) == b, "set_print_stats printed %s, expected %s", printable(s, 400).c_str(), printable(std::string(b), 400).c_str());
	xfree(st);
}
static void audited(SetT &x, int i, int c)
{
	if (x.ro) { x.member(i, c); return; }
	set_Stats a = x.stats(); unsigned long h0 = a->hits; bool single = a->maximum_length <= 1; xfree(a);
	const void *head = nullptr; bool know = x.u->constant_hash && !x.m.empty();
	if (know) { head = set_get_position(set_init_position(x.s)); set_readonly(x.s, 0); }
	x.member(i, c); a = x.stats(); unsigned long d = a->hits - h0; xfree(a); auto it = x.m.find(i);
	if (it == x.m.end()) CHECK(d == 0, "a failed look-up was counted as a hit");
	else if (know) CHECK(d == (it->second == head ? 1u : 0u), "a look-up from %s of the chain counted as %lu hits", it->second == head ? "the top" : "below the top", d);
	else if (single) { CHECK(d == 1, "a look-up from a chain of one counted as %lu hits", d); x.hits_min++; }
	else CHECK(d <= 1, "one look-up counted as %lu hits", d);
}
static void history(Gen &g)
{
	reset_lib(g.draw(0xffff)); Universe u[2]; SetT t[2]; int nt = 1 + g.draw(1);
	for (int i = 0; i < nt; i++) { make_universe(g, u[i], 300); t[i].u = &u[i]; t[i].g = &g; t[i].name = "s" + std::to_string(i); t[i].create();
		CHECK(set_get_hash(t[i].s) == (u[i].hash ? u[i].hash : set_HashFunction(hsh_string_hash)) && set_get_compare(t[i].s) == (u[i].cmp ? u[i].cmp : set_CompareFunction(hsh_string_compare)), "set_get_hash or set_get_compare does not return the function given"); }
	ALL = t; NALL = nt; in_depth = 0;
	for (Loop l(g, 120, 1); l.more();) {
		SetT &x = t[nt > 1 ? g.draw(1) : 0]; int i = g.draw(x.u->n - 1), c = g.draw(2);
		if (x.ro) {
			switch (g.draw(3)) { case 0: { int r = set_readonly(x.s, 0); CHECK(r == 1, "set_readonly returned %d, expected 1", r); x.ro = false; break; } case 1: x.full(); break; case 2: iterate(x, g); break; default: x.member(i, c); }
			continue;
		}
		switch (g.weighted({ 10, 6, 8, 4, 2, 2, 2, 1, 4, 1, 1 })) {
		case 0: { unsigned long b = x.m.size(); bool had = x.m.count(i); x.insert(i, c); if (!had) growth(x, b); break; }
		case 1: x.erase(i, c); break;
		case 2: x.member(i, c); break;
		case 3: audited(x, i, c); break;
		case 4: { int n = 1 + g.draw(x.u->n - 1); for (int k = 0; k < n; k++) { int j = (i + k) % x.u->n; unsigned long b = x.m.size(); bool had = x.m.count(j); x.insert(j, k); if (!had) growth(x, b); } x.full(); break; }
		case 5: { int n = 1 + g.draw(x.u->n - 1), st = 1 + g.draw(3); for (int k = 0; k < n; k++) x.erase((i + k * st) % x.u->n, k); x.full(); break; }
		case 6: xfree(x.stats()); x.count(); break;
		case 7: print(x); break;
		case 8: iterate(x, g); break;
		case 9: { int r = set_readonly(x.s, 1); CHECK(r == 0, "set_readonly returned %d, expected 0", r); x.ro = true; break; }
		default: set_destroy(x.s); x.create(); x.count();
		}
	}
	ALL = nullptr;
	for (int i = 0; i < nt; i++) {
		SetT &x = t[i]; if (x.ro) { set_readonly(x.s, 0); x.ro = false; }
		x.full(); if (x.resz) { g.nontrivial(); g.label("resized"); }
		if (g.flip()) { std::vector<int> k; for (auto &e : x.m) k.push_back(e.first); for (int j : k) x.erase(j, 1); x.full(); }
		set_destroy(x.s); x.u->unchanged();
	}
}
static int g_op; static int g_i; static long g_at, g_seen;
static void mutate(SetT &x) { switch (g_op) { case 0: set_insert(x.s, x.u->ptr(g_i)); break; case 1: set_delete(x.s, x.u->ptr(g_i)); break; default: set_destroy(x.s); } }
static int mut_cb(const void *) { if (g_seen++ == g_at) mutate(*IN); return 0; }
static int mut_cba(const void *, void *) { return mut_cb(nullptr); }
static void guarded(Gen &g)
{
	reset_lib(); Universe u; make_universe(g, u, 40); SetT x; x.u = &u; x.g = &g; x.name = "s"; x.create(); IN = &x;
	int n = g.chance(1, 8) ? 0 : 1 + g.draw(u.n - 1); for (int k = 0; k < n; k++) x.insert(k, k);
	if (!n && g.flip()) { x.insert(0, 0); x.erase(0, 0); }
	int how = n ? g.draw(4) : g.flip() ? 4 : 0; g_op = g.draw(2); g_i = g.draw(u.n - 1); g_at = n ? g.draw(x.m.size() - 1) : 0; if (!n) g.label("empty set"); g_seen = 0;
	static const char *hn[] = { "flag set", "inside set_iterate", "inside set_iterate_arg", "position iteration", "flag set, after a callback iteration" }, *on[] = { "insert", "delete", "destroy" };
	g.note("%s: %s %s at visit %ld", hn[how], on[g_op], u.show(g_i).c_str(), g_at); g.label(hn[how]); g.nontrivial();
	if (how == 0 || how == 4) { int r = set_readonly(x.s, 1); CHECK(r == 0, "set_readonly returned %d", r); x.ro = true; }
	if (how == 4) { SetT::Collect c; c.stop = g.flip() ? g_at : -1; c.val = 1; SetT::C = &c; set_iterate(x.s, SetT::cb); }
	if (how == 3) { set_Position p = set_init_position(x.s); for (long k = 0; k < g_at; k++) { p = set_next_position(x.s, p); CHECK(p, "position iteration too short"); } }
	Outcome o = run_forked([&] { if (how == 1) set_iterate(x.s, mut_cb); else if (how == 2) set_iterate_arg(x.s, mut_cba, nullptr); else mutate(x); });
	CHECK(o.aborted() && !o.err.empty(), "%s (%s) should be diagnosed and abort: it %s", on[g_op], hn[how], o.str().c_str());
	for (int i = 0; i < u.n; i++) x.member(i, 0);
	set_readonly(x.s, 0);
	if (how == 1 || how == 2) { SetT::Collect c; c.stop = g.flip() ? g_at : -1; c.val = 1; SetT::C = &c; if (how == 1) set_iterate(x.s, SetT::cb); else set_iterate_arg(x.s, SetT::cba, &c); int r = set_readonly(x.s, 0); CHECK(!r, "readonly after a callback iteration %s", c.stop >= 0 ? "stopped early" : "completed"); }
	x.insert(u.n - 1, 0); x.erase(0, 0); x.full(); set_destroy(x.s);
}
static void at_scale(Gen &g)
{
	reset_lib(); Universe u; int n = (int)scale(g); make_universe(g, u, 0, n); SetT x; x.u = &u; x.g = &g; x.name = "s"; x.create(); bool v = g.verbose; g.verbose = false;
	for (int i = 0; i < n; i++) { x.insert(i, i); if (i % 20011 == 0) growth(x, i); } x.count(); x.full(); print(x); x.insert(n - 1, 0); x.insert(0, 1);
	int st = 1 + g.draw(2), from = g.draw(n - 1); for (int i = from; i < n; i += st) x.erase(i, i); x.full(); print(x);
	for (int k = 0; k < 200; k++) x.insert(g.draw(n - 1), 0); x.count(); xfree(x.stats()); g.verbose = v; set_destroy(x.s); u.unchanged();
}
static Target t3("at scale", 20, 1000, at_scale, false);
static Target t1("history", 180000, 1200000, history);
static Target t2("guarded", 10000, 100000, guarded, false);
