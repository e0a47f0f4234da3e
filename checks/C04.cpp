#include "setw.h"
const char *PROPERTY = "C04", *LEVEL = "exploration";
const char *RULE = "A case is a pool of up to four sets over one universe (keys.h), filled with overlapping random, strided or empty selections of equal copies, and a sequence of unions, intersections, differences, equality tests, in-place additions and deletions between any two of them (the same one included), mixed with inserts, deletes, readonly operands and destruction of operands before the result is examined; "
	"the result, both operands and every other set of the pool are compared with models element by element (pointer identity included). mixed: sets with differing functions must be refused with exit status 1 by each operation, others must not. Non-trivial: an operation on two sets that overlap partly, or on a set and itself, or a refused pair.";
const char *ASSUMPTIONS = "hash and compare functions are pure and consistent with each other";

static void algebra(Gen &g)
{
	reset_lib(g.draw(0xffff)); Universe u; make_universe(g, u, g.chance(1, 8) ? 400 : 40);
	std::vector<SetT> p; 
	auto fresh = [&] { SetT s; s.u = &u; s.g = &g; s.count_stats = false; s.name = "s" + std::to_string(p.size()); s.create(); return s; };
	auto fill = [&](SetT &s) { int n = g.draw(u.n), from = g.draw(u.n - 1), st = 1 + g.draw(2); for (int k = 0; k < n; k++) s.insert((from + k * st) % u.n, g.draw(2)); };
	int np = 2 + g.draw(2); for (int i = 0; i < np; i++) { p.push_back(fresh()); if (g.chance(7, 8)) fill(p.back()); }
	auto all = [&] { for (auto &s : p) { bool ro = s.ro; s.full(); int f = set_readonly(s.s, ro); CHECK(f == (int)ro, "the readonly flag of %s changed from %d to %d", s.name.c_str(), (int)ro, f); } };
	for (Loop l(g, 12, 1); l.more();) {
		int a = g.draw(np - 1), b = g.draw(np - 1); SetT &x = p[a], &y = p[b];
		if (a == b) g.nontrivial();
		{ int common = 0; for (auto &e : x.m) common += y.m.count(e.first); if (common && common < (int)x.m.size()) g.nontrivial(); }
		int op = g.weighted({ 4, 4, 4, 5, 3, 3, 2, 2, 1 }); static const char *on[] = { "union", "inter", "diff", "equal", "add", "del", "insert", "delete", "readonly" };
		g.note("%s(%s, %s) sizes %zu %zu", on[op], x.name.c_str(), y.name.c_str(), x.m.size(), y.m.size()); g.label(on[op]);
		switch (op) {
		case 0: case 1: case 2: {
			SetT r; r.u = &u; r.g = &g; r.count_stats = false; r.name = std::string(on[op]);
			r.s = op == 0 ? set_union(x.s, y.s) : op == 1 ? set_inter(x.s, y.s) : set_diff(x.s, y.s);
			CHECK(r.s, "set_%s returned NULL", on[op]); for (auto &s : p) CHECK(r.s != s.s, "set_%s returned an existing set", on[op]);
			for (auto &e : x.m) if (op == 0 || (op == 1) == (y.m.count(e.first) > 0)) r.m[e.first] = e.second;
			if (op == 0) for (auto &e : y.m) r.m.insert(e);
			CHECK(set_get_hash(r.s) == set_get_hash(x.s) && set_get_compare(r.s) == set_get_compare(x.s), "the result of set_%s has other functions than its operands", on[op]);
			r.full(); all();
			// independence: change or destroy the operands, then look again
			switch (g.draw(3)) {
			case 0: { int i = g.draw(u.n - 1); r.erase(i, 0); r.insert(g.draw(u.n - 1), 1); all(); break; }
			case 1: if (!x.ro) { x.erase(g.draw(u.n - 1), 0); x.insert(g.draw(u.n - 1), 1); } break;
			case 2: if (!x.ro) { set_destroy(x.s); x.create(); } break;
			default: break; }
			r.full();
			if (g.flip() && !x.ro) { std::swap(x.s, r.s); std::swap(x.m, r.m); x.size = x.resz = x.hits = 0; }
			bool was = set_readonly(r.s, 0); CHECK(!was, "the result of set_%s is readonly", on[op]);
			set_destroy(r.s); break; }
		case 3: { bool want = x.m.size() == y.m.size(); for (auto &e : x.m) want = want && y.m.count(e.first); int r = set_equal(x.s, y.s); CHECK(!!r == want, "set_equal of sets with %zu and %zu elements returned %d, expected %d", x.m.size(), y.m.size(), r, want); if (want && a != b) g.label("equal sets"); break; }
		case 4: { if (x.ro) break; set_Set r = set_add(x.s, y.s); CHECK(r == x.s, "set_add did not return its first set"); for (auto &e : y.m) x.m.insert(e); break; }
		case 5: { if (x.ro) break; set_Set r = set_del(x.s, y.s); CHECK(r == x.s, "set_del did not return its first set"); std::vector<int> k; for (auto &e : y.m) k.push_back(e.first); for (int i : k) x.m.erase(i); break; }
		case 6: if (!x.ro) { x.insert(g.draw(u.n - 1), g.draw(2)); } break;
		case 7: if (!x.ro) x.erase(g.draw(u.n - 1), 0); break;
		default: { x.ro = !x.ro; set_readonly(x.s, x.ro); if (g.flip() && !x.ro) { // make it a copy, perhaps of other addresses, with one difference at times
				set_destroy(x.s); auto m = y.m; x.create(); for (auto &e : m) x.insert(e.first, g.draw(2)); if (g.flip() && !m.empty()) { int i = m.begin()->first; x.erase(i, 0); if (g.flip()) x.insert(g.draw(u.n - 1), 0); } } }
		}
		all();
	}
	for (auto &s : p) { set_readonly(s.s, 0); set_destroy(s.s); } u.unchanged();
}
static unsigned long h1(const void *) { return 1; }
static unsigned long h2(const void *k) { return (unsigned long)k; }
static int c1(const void *a, const void *b) { return a != b; }
static int c2(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void mixed(Gen &g)
{
	reset_lib(); const std::vector<HashFn> H = { h1, h2, hsh_pointer_hash }; const std::vector<CmpFn> C = { c1, c2, hsh_pointer_compare }; static const char d[8] = "abcdefg";
	HashFn ha = g.pick(H), hb = g.pick(H); CmpFn ca = g.pick(C), cb = g.pick(C); if (g.flip()) { if (g.flip()) hb = ha; else cb = ca; }
	if (g.chance(1, 6)) { ha = nullptr; hb = hsh_string_hash; ca = cb = hsh_string_compare; }   // the default is that function
	bool same = (ha ? ha : HashFn(hsh_string_hash)) == (hb ? hb : HashFn(hsh_string_hash)) && ca == cb; int na = g.draw(3), nb = g.draw(3), op = g.draw(5);
	static const char *on[] = { "set_union", "set_inter", "set_diff", "set_equal", "set_add", "set_del" };
	g.note("%s, %zu and %zu elements, functions %s", on[op], (size_t)na, (size_t)nb, same ? "identical" : ha != hb ? ca != cb ? "both differ" : "hash differs" : "compare differs");
	if (!same) { g.nontrivial(); g.label("refused"); } else g.label("accepted");
	Outcome o = run_forked([&] {
		set_Set a = set_create(ha, ca), b = set_create(hb, cb); for (int i = 0; i < na; i++) set_insert(a, d + i); for (int i = 0; i < nb; i++) set_insert(b, d + i + 1);
		switch (op) { case 0: set_union(a, b); break; case 1: set_inter(a, b); break; case 2: set_diff(a, b); break; case 3: set_equal(a, b); break; case 4: set_add(a, b); break; default: set_del(a, b); } });
	if (same) CHECK(o.returned, "%s of sets with identical functions: it %s", on[op], o.str().c_str());
	else CHECK(o.exit1() && !o.err.empty(), "%s of sets with differing functions should be a fatal error: it %s", on[op], o.str().c_str());
}
// Sets of which one contains the other, with sizes that agree in their low bits.
static void sizes(Gen &g, size_t n, std::vector<size_t> less)
{
	reset_lib(); static std::vector<char> base; if (base.size() < 400000) base.assign(400000, 0); size_t k = g.pick(less); if (k > n) k = n; bool other = g.chance(1, 5); size_t from = g.flip() ? 0 : n - k;   // y lacks k elements from there on
	bool swap = g.flip(); g.note("%zu elements and %zu of them%s", n, n - k, other ? " and as many others" : ""); g.nontrivial();
	set_Set x = set_create(hsh_pointer_hash, hsh_pointer_compare), y = set_create(hsh_pointer_hash, hsh_pointer_compare);
	for (size_t i = 0; i < n; i++) { set_insert(x, &base[i]); if (i < from || i >= from + k) set_insert(y, &base[i]); } if (other) for (size_t i = 0; i < k; i++) set_insert(y, &base[n + i]);
	auto count = [&](set_Set s, size_t w, const char *what) { int c = set_count(s); CHECK(c == (int)w, "%s of %zu and %zu elements has %d, expected %zu", what, n, n - k, c, w); size_t seen = 0; set_Position p; void *e; SET_ITERATE(s, p, e) seen++; CHECK(seen == w, "%s: an iteration presents %zu elements, expected %zu", what, seen, w); };
	size_t ny = n - k + (other ? k : 0); set_Set a = swap ? y : x, b = swap ? x : y; int r = set_equal(a, b); CHECK(!!r == (k == 0), "set_equal of sets with %zu and %zu elements, %zu in common, returned %d", swap ? ny : n, swap ? n : ny, n - k, r);
	switch (g.draw(4)) { case 0: { set_Set u = set_union(a, b); count(u, n + (other ? k : 0), "the union"); CHECK(!!set_equal(u, a) == (!swap ? !other || !k : !k), "the union compares wrongly with its operand"); set_destroy(u); break; }
	case 1: { set_Set u = set_inter(a, b); count(u, n - k, "the intersection"); set_destroy(u); break; }
	case 2: { set_Set u = set_diff(a, b); count(u, swap ? ny - (n - k) : k, "the difference"); set_destroy(u); break; }
	case 3: set_add(a, b); count(a, n + (other ? k : 0), "the sum"); break;
	default: set_del(a, b); count(a, swap ? ny - (n - k) : k, "the rest"); }
	set_destroy(x); set_destroy(y);
}
static void small_sizes(Gen &g) { size_t n = 256 + g.draw(1500); sizes(g, n, { 256, 512, 768, 0, 255, 257, 1, n }); }
static void at_scale(Gen &g) { size_t n = scale(g); sizes(g, n, { 65536, 32768, 0, 1, 256, n }); }
static Target t3("sizes", 6000, 60000, small_sizes);
static Target t4("at scale", 48, 2000, at_scale, false);
static Target t1("algebra", 150000, 1000000, algebra);
static Target t2("mixed", 8000, 60000, mixed, false);
