#include "keys.h"
const char *PROPERTY = "C01", *LEVEL = "exploration";
const char *RULE = "A case is two hash tables over generated key universes (custom keys with constant, sequential, colliding-modulo-the-size, high-bit, full-width or 4-valued hashes and compare functions with odd non-zero results, or functions that use another table and set themselves; strings, some differing in case only, with default or own functions and equal-content copies; object addresses; arbitrary pointer values including NULL) "
	"and a history of inserts, deletes, look-ups, bulk phases, readonly toggles, statistics and printed statistics, run against a map model; every return value is compared, a full scan of the universe follows each bulk phase and ends the case. "
	"functions: the string and pointer functions themselves, for equal contents at different addresses and nearly equal contents. large: one table grown to up to 40000 keys and shrunk again. Non-trivial: the table was resized or two live keys shared a hash value or a deleted key was looked up.";
const char *ASSUMPTIONS = "hash and compare functions are pure and consistent with each other\nhits are the retrievals answered from the top of a chain; their number is checked exactly only where the chain is observable (one-valued hash, or no chain longer than one), otherwise hits <= successful look-ups";

struct Ent { const void *key, *datum; };
struct T {
	Universe u; hsh_HashTable t = nullptr; std::map<int, Ent> m; std::set<int> deleted;
	unsigned long retr = 0, miss = 0, found = 0, hits_min = 0, size = 0, resz = 0; bool chain1 = true, exact_hits = true; unsigned long hits = 0; bool ro = false;
	Gen *g; int serial = 0, which; bool collided = false;
	char data[64];
	const void *datum(Gen &g) { switch (g.draw(5)) { case 0: return nullptr; case 1: return (void *)g.wide(64); default: return &data[serial++ % 64]; } }

	hsh_Stats stats()
	{
		hsh_Stats s = hsh_get_stats(t);
		CHECK(s, "hsh_get_stats returned NULL");
		check_chains(s, m.size(), u.constant_hash);
		CHECK(s->retrievals == retr, "statistics: %lu retrievals, there were %lu", s->retrievals, retr);
		CHECK(s->misses == miss, "statistics: %lu misses, there were %lu", s->misses, miss);
		CHECK(s->hits <= found, "statistics: %lu hits, but only %lu successful retrievals", s->hits, found);
		CHECK(s->hits >= hits, "the number of hits fell from %lu to %lu", hits, s->hits); hits = s->hits;
		CHECK(s->hits >= hits_min, "statistics: %lu hits, but %lu retrievals were from chains of length one", s->hits, hits_min);
		CHECK(s->size >= size, "the table shrank from %lu to %lu buckets", size, s->size);
		CHECK(s->resizings >= resz && (s->resizings == resz) == (s->size == size || size == 0) , "statistics: resizings %lu -> %lu while size %lu -> %lu", resz, s->resizings, size, s->size);
		CHECK(s->resizings < s->size, "statistics: %lu resizings to a size of %lu", s->resizings, s->size);
		size = s->size; resz = s->resizings; chain1 = s->maximum_length <= 1;
		return s;
	}
	void check_stats() { xfree(stats()); }
	void insert(int i, int c, const void *d)
	{
		const void *k = u.ptr(i, c); bool had = m.count(i);
		g->note("t%d insert %s copy %d datum %p%s", which, u.show(i).c_str(), c % u.copies, d, had ? " (present)" : "");
		int r = hsh_insert(t, k, d);
		CHECK(r == (had ? 1 : 0), "hsh_insert of %s key %s returned %d", had ? "a present" : "an absent", u.show(i).c_str(), r);
		if (!had) {
			m[i] = Ent{ k, d }; deleted.erase(i);
		}
	}
	void erase(int i, int c)
	{
		bool had = m.count(i); g->note("t%d delete %s%s", which, u.show(i).c_str(), had ? "" : " (absent)");
		int r = hsh_delete(t, u.ptr(i, c));
		CHECK(r == (had ? 0 : 1), "hsh_delete of %s key %s returned %d", had ? "a present" : "an absent", u.show(i).c_str(), r);
		if (had) { m.erase(i); deleted.insert(i); }
	}
	void get(int i, int c, bool quiet = false)
	{
		auto it = m.find(i); const void *want = it == m.end() ? nullptr : it->second.datum;
		if (!quiet) g->note("t%d retrieve %s -> %p", which, u.show(i).c_str(), want);
		if (deleted.count(i)) g->nontrivial();
		const void *r = hsh_retrieve(t, u.ptr(i, c));
		CHECK(r == want, "hsh_retrieve of %s key %s returned %p, expected %p", it == m.end() ? "absent" : "present", u.show(i).c_str(), r, want);
		retr++; if (it == m.end()) miss++; else found++;
	}
	// a look-up whose place in the chain is known
	void audited_get(int i, int c)
	{
		if (ro) { get(i, c); return; }
		hsh_Stats a = stats(); unsigned long h0 = a->hits; bool single = a->maximum_length <= 1; xfree(a);
		const void *head = nullptr; bool know = false;
		if (u.constant_hash && !m.empty()) { hsh_Position p = hsh_init_position(t); void *k; hsh_get_position(p, &k); hsh_readonly(t, 0); head = k; know = true; }
		get(i, c);
		a = stats(); unsigned long d = a->hits - h0; xfree(a);
		auto it = m.find(i);
		if (it == m.end()) CHECK(d == 0, "a failed retrieval was counted as a hit");
		else if (know) CHECK(d == (it->second.key == head ? 1u : 0u), "retrieval from %s of the chain counted as %lu hits", it->second.key == head ? "the top" : "below the top", d);
		else if (single) { CHECK(d == 1, "retrieval from a chain of one counted as %lu hits", d); hits_min++; }
		else CHECK(d <= 1, "one retrieval counted as %lu hits", d);
	}
	void scan()
	{
		for (int i = 0; i < u.n; i++) get(i, i, true);
		check_stats(); u.unchanged();
	}
	void print()
	{
		FILE *f = tmpfile(); hsh_print_stats(t, f); std::string s = slurp(f); same_on_stdout(s, [&](FILE *h) { hsh_print_stats(t, h); }); hsh_Stats st = stats(); char b[600];
		size_t nl = s.find('\n'); 
		int n = snprintf(b, sizeof b, "   %lu resizings to %lu total\n   %lu entries (%lu buckets used, %lu without overflow)\n   maximum list length is %lu",
			st->resizings, st->size, st->entries, st->buckets_used, st->singletons, st->maximum_length);
		if (st->buckets_used) n += snprintf(b + n, sizeof b - n, " (optimal is %.1f)", (double)st->entries / st->buckets_used);
		snprintf(b + n, sizeof b - n, "\n   %lu retrievals (%lu from top, %lu failed)\n", st->retrievals, st->hits, st->misses);
		CHECK(nl != std::string::npos && s.substr(nl + 1) == b, "hsh_print_stats printed %s, expected %s", printable(s, 400).c_str(), printable(std::string(b), 400).c_str());
		xfree(st);
	}
};
static void growth(T &t, unsigned long before)
{
	hsh_Stats s = t.stats();
	CHECK(before * 2 <= s->size, "an insertion was made into a table of %lu buckets holding %lu entries: more than half full", s->size, before);
	xfree(s);
}
static void shared(T &t)
{
	if (t.collided || t.u.kind != K_CUSTOM) return;
	std::set<unsigned long> h; for (auto &e : t.m) if (!h.insert(t.u.hash(t.u.ptr(e.first))).second) { t.collided = true; t.g->nontrivial(); t.g->label("live keys with equal hashes"); return; }
}
static void history(Gen &g)
{
	reset_lib(g.draw(0xffff));
	T t[2]; int nt = 1 + g.draw(1);
	for (int i = 0; i < nt; i++) { t[i].g = &g; t[i].which = i; make_universe(g, t[i].u, 400); t[i].t = hsh_create(t[i].u.hash, t[i].u.cmp); CHECK(t[i].t, "hsh_create returned NULL"); t[i].check_stats(); }
	for (Loop l(g, 120, 1); l.more();) {
		T &x = t[nt > 1 ? g.draw(1) : 0]; int i = g.draw(x.u.n - 1), c = g.draw(2);
		if (x.ro) { // only look-ups, until it is made writable again
			switch (g.draw(3)) { case 0: { int r = hsh_readonly(x.t, 0); CHECK(r == 1, "hsh_readonly returned %d, expected 1", r); x.ro = false; g.note("t%d writable", x.which); break; } case 1: x.scan(); break; default: x.get(i, c); }
			continue;
		}
		switch (g.weighted({ 10, 6, 8, 4, 2, 2, 2, 1, 1, 1 })) {
		case 0: { unsigned long b = x.m.size(); bool had = x.m.count(i); x.insert(i, c, x.datum(g)); if (!had) growth(x, b); shared(x); break; }
		case 1: x.erase(i, c); break;
		case 2: x.get(i, c); break;
		case 3: x.audited_get(i, c); break;
		case 4: { // bulk insert
			int n = 1 + g.draw(x.u.n - 1); g.note("t%d bulk insert of %d from %d", x.which, n, i);
			for (int k = 0; k < n; k++) { int j = (i + k) % x.u.n; unsigned long b = x.m.size(); bool had = x.m.count(j); x.insert(j, k, &x.data[k % 64]); if (!had) growth(x, b); }
			x.scan(); shared(x); break; }
		case 5: { int n = 1 + g.draw(x.u.n - 1), st = 1 + g.draw(3); g.note("t%d bulk delete of %d from %d", x.which, n, i); for (int k = 0; k < n; k++) x.erase((i + k * st) % x.u.n, k); x.scan(); break; }
		case 6: x.check_stats(); break;
		case 7: x.print(); break;
		case 8: { int r = hsh_readonly(x.t, 1); CHECK(r == 0, "hsh_readonly returned %d, expected 0", r); x.ro = true; g.note("t%d readonly", x.which); break; }
		default: g.note("t%d again", x.which); hsh_destroy(x.t); x.m.clear(); x.deleted.clear(); x.retr = x.miss = x.found = x.hits = x.hits_min = x.size = x.resz = 0; x.t = hsh_create(x.u.hash, x.u.cmp); x.check_stats();
		}
	}
	for (int i = 0; i < nt; i++) {
		T &x = t[i]; if (x.ro) hsh_readonly(x.t, 0);
		x.scan(); if (x.resz) { g.nontrivial(); g.label("resized"); } if (x.resz > 3) g.label("resized more than 3 times");
		if (g.flip()) { std::vector<int> k; for (auto &e : x.m) k.push_back(e.first); for (int j : k) x.erase(j, 1); x.scan(); }
		hsh_destroy(x.t); x.u.unchanged();
	}
}
static void large(Gen &g)
{
	reset_lib();
	T x; x.g = &g; x.which = 0; make_universe(g, x.u, 30000);
	if (x.u.constant_hash || x.u.name.find("few") != std::string::npos) x.u.n = std::min(x.u.n, 1500);
	if (x.u.name.find("multiples") != std::string::npos || x.u.name.find("high") != std::string::npos) x.u.n = std::min(x.u.n, 4000);
	x.t = hsh_create(x.u.hash, x.u.cmp);
	for (Loop l(g, 6, 1); l.more();) {
		int n = 1 + g.draw(x.u.n - 1), from = g.draw(x.u.n - 1), op = g.draw(2); g.note("%s %d from %d", op == 0 ? "insert" : op == 1 ? "delete" : "look up", n, from);
		bool v = g.verbose; g.verbose = false;
		for (int k = 0; k < n; k++) { int j = (from + k) % x.u.n; if (op == 0) { unsigned long b = x.m.size(); bool had = x.m.count(j); x.insert(j, k, &x.data[k % 64]); if (!had && k % 977 == 0) growth(x, b); } else if (op == 1) x.erase(j, k); else x.get(j, k); }
		g.verbose = v; x.check_stats();
	}
	x.scan(); if (x.resz) g.nontrivial(); if (x.m.size() > 5000) g.label("more than 5000 entries");
	hsh_destroy(x.t); x.u.unchanged();
}
static void at_scale(Gen &g)
{
	reset_lib(); T x; x.g = &g; x.which = 0; int n = (int)scale(g); make_universe(g, x.u, 0, n); x.t = hsh_create(x.u.hash, x.u.cmp); bool v = g.verbose; g.verbose = false;
	for (int i = 0; i < n; i++) { x.insert(i, i, &x.data[i % 64]); if (i % 20011 == 0) growth(x, x.m.size() - 1); } x.check_stats(); x.print();
	for (int i = 0; i < n; i += 1 + g.draw(1)) x.get(i, i + 1); x.insert(n - 1, 0, nullptr); x.insert(0, 0, nullptr); x.check_stats();
	int st = 1 + g.draw(2), from = g.draw(n - 1); for (int i = from; i < n; i += st) x.erase(i, i); x.scan(); x.print();
	for (int k = 0; k < 200; k++) { int i = g.draw(n - 1); x.insert(i, 0, &x.data[k % 64]); } x.check_stats(); g.verbose = v; hsh_destroy(x.t); x.u.unchanged();
}
// Keys that are equal for long.
static void long_keys(Gen &g)
{
	reset_lib(); static const size_t at[] = { 65536, 4096, 8192, 16384, 32768, 131072, 255, 256, 1024 }; int n = 2 + g.draw(4); std::vector<std::string> k; hsh_HashTable t = hsh_create(nullptr, nullptr); std::map<std::string, const void *> m; g.nontrivial();
	size_t len = at[g.draw(8)] + g.draw(3); for (int i = 0; i < n; i++) { std::string s(len + 8, 'k'); size_t p = g.flip() ? len - 1 + g.draw(3) : g.draw(len); s[p] = (char)('a' + i); if (g.flip()) s.resize(std::max(p + 1, s.size() - g.draw(4))); if (g.chance(1, 8)) s.assign(len + 2 - g.draw(3), 'k'); k.push_back(s); }
	g.note("%d keys of about %zu bytes", n, len);
	for (Loop l(g, 20, 1); l.more();) { std::string s = k[g.draw(n - 1)]; const void *d = &k[g.draw(n - 1)]; bool had = m.count(s); 
		switch (g.draw(2)) { case 0: { int r = hsh_insert(t, had ? s.c_str() : strdup(s.c_str()), d); CHECK(r == had, "hsh_insert of %s key of %zu bytes returned %d", had ? "a present" : "an absent", s.size(), r); if (!had) m[s] = d; break; }
		case 1: { const void *r = hsh_retrieve(t, s.c_str()); CHECK(r == (had ? m[s] : nullptr), "hsh_retrieve of %s key of %zu bytes gave %p", had ? "a present" : "an absent", s.size(), r); break; }
		default: { void *own = nullptr; hsh_Position p; void *q; HSH_ITERATE_KEYS(t, p, q) if (s == (char *)q) own = q; CHECK(!own == !had, "key of %zu bytes is %s the table", s.size(), own ? "in" : "not in"); int r = hsh_delete(t, s.c_str()); CHECK(r == !had, "hsh_delete of %s key of %zu bytes returned %d", had ? "a present" : "an absent", s.size(), r); m.erase(s); free(own); } } }
	std::vector<void *> own; hsh_Position p; void *q; HSH_ITERATE_KEYS(t, p, q) own.push_back(q); CHECK(own.size() == m.size(), "there are %zu keys, expected %zu", own.size(), m.size()); hsh_destroy(t); for (void *o : own) free(o);
}
// the hash and compare functions themselves
static void functions(Gen &g)
{
	int n = 2 + g.small(30); std::vector<std::string> v; static const char *alpha[] = { "ab", "aA", "\x7f\x80\xff\x01", " \t\n0", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" };
	const char *al = alpha[g.draw(4)]; int na = strlen(al);
	for (int i = 0; i < n; i++) {
		std::string x;
		if (i && g.chance(1, 2)) { x = v[g.draw(i - 1)]; switch (g.draw(4)) { case 0: break; case 1: x += al[g.draw(na - 1)]; break; case 2: if (!x.empty()) x.pop_back(); break; case 3: if (!x.empty()) x[g.draw(x.size() - 1)] = al[g.draw(na - 1)]; break; default: for (auto &c : x) if (isalpha((unsigned char)c) && g.flip()) c ^= 0x20; } }
		else for (int l = g.chance(1, 20) ? g.draw(5000) : g.small(40); l > 0; l--) x += al[g.draw(na - 1)];
		v.push_back(x);
	}
	auto fresh = [](const std::string &x, int pad) { char *b = (char *)malloc(x.size() + 1 + pad); memcpy(b + pad, x.c_str(), x.size() + 1); return b; };
	for (int k = 0; k < 60; k++) {
		const std::string &x = v[g.draw(n - 1)], &y = v[g.draw(n - 1)]; int p1 = g.draw(8), p2 = g.draw(8); char *a = fresh(x, p1), *b = fresh(y, p2);
		unsigned long h1 = hsh_string_hash(a + p1), h2 = hsh_string_hash(b + p2), h3 = hsh_string_hash(a + p1); int c = hsh_string_compare(a + p1, b + p2), d = hsh_string_compare(b + p2, a + p1), e = hsh_string_compare(a + p1, a + p1);
		bool eq = x == y; if (eq && &x != &y) g.nontrivial(); if (!eq && !strcasecmp(x.c_str(), y.c_str())) g.nontrivial();
		CHECK(!strcmp(a + p1, x.c_str()) && !strcmp(b + p2, y.c_str()), "a hash or compare function changed its argument");
		free(a); free(b);
		CHECK((c == 0) == eq && (d == 0) == eq && e == 0, "hsh_string_compare of %s and %s: %d, the other way round %d, with itself %d", printable(x.c_str(), 60).c_str(), printable(y.c_str(), 60).c_str(), c, d, e);
		CHECK(h1 == h3, "hsh_string_hash of the same string: %lx and %lx", h1, h3);
		CHECK(!eq || h1 == h2, "hsh_string_hash of equal strings %s: %lx and %lx", printable(x.c_str(), 60).c_str(), h1, h2);
	}
	std::vector<unsigned long> w; for (int i = 0; i < 12; i++) switch (g.draw(3)) { case 0: w.push_back(g.wide(64)); break; case 1: w.push_back(i ? w[g.draw(i - 1)] ^ 1UL << g.draw(63) : 0); break; case 2: w.push_back(i ? w[g.draw(i - 1)] : ~0UL); break; default: w.push_back(i ? w[g.draw(i - 1)] + 1 : 1); }
	for (unsigned long a : w) for (unsigned long b : w) {
		int c = hsh_pointer_compare((void *)a, (void *)b);
		CHECK((c == 0) == (a == b), "hsh_pointer_compare of %lx and %lx returned %d", a, b, c);
		CHECK(a != b || hsh_pointer_hash((void *)a) == hsh_pointer_hash((void *)b), "hsh_pointer_hash of %lx differs between calls", a);
	}
}
static Target t5("functions", 20000, 400000, functions);
static Target t3("at scale", 24, 1000, at_scale, false);
static Target t4("long keys", 4000, 60000, long_keys, false);
static Target t1("history", 200000, 1500000, history);
static Target t2("large", 3200, 12000, large, false);
