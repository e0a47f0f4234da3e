#include "buf.h"
const char *PROPERTY = "C08", *LEVEL = "exploration";
const char *RULE = "A case is a history over the global pool and up to two other pools of find, find by length, grow-and-finish, exists, copy, copy by length, unique, every form of iteration (some stopped early, some with look-ups, nested iterations or additions to other pools inside), readonly changes, statistics, and destruction and re-creation, with caller's buffers of exactly the needed size that are overwritten and freed at once; the model is a map from contents to the pointer first returned plus the set of all live blocks, whose contents are all compared at random points and at the end, and which must not overlap. "
	"Non-trivial: a string already in the pool was looked up again by another route, or a pool was used after an iteration or a destruction.";
const char *ASSUMPTIONS = "nothing else is done to a pool between the first grow and the finish\na pool is not destroyed or added to while it is being iterated\nlengths below 1 MB (strings by length are copied on the stack)";

struct P { str_Pool p = nullptr; bool global = false; std::map<std::string, const char *> in; std::map<std::string, int> how; Blocks b; bool reborn = false, busy = false; };
static std::string cstr(const std::string &s) { return s.substr(0, s.find('\0') == std::string::npos ? s.size() : s.find('\0')); }

static void interned(P &x, Gen &g, const std::string &s, const char *r, int how, const char *what)
{
	auto i = x.in.find(s);
	if (i != x.in.end()) {
		CHECK(r == i->second, "%s(\"%s\") returned %p, but the string is at %p", what, printable(s).c_str(), r, i->second);
		if (x.how[s] != how) { g.nontrivial(); g.label("found by another route"); }
	} else {
		x.b.add(r, s, what); x.in[s] = r; x.how[s] = how;
		if (x.reborn) g.nontrivial();
	}
}
struct It { P *x; std::set<const char *> seen; long stop, n; int val; bool look, nest; const char *probe; };
static It *I; static P *ALL; static int NALL, depth, nests; static Gen *GG;
static void iterate(P &x, Gen &g);
// while a pool is iterated over: further iterations of it and of others, and additions to others
static void nested(P &x)
{
	It *o = I; Gen &g = *GG; P &y = ALL[g.draw(NALL - 1)]; g.label(&y == &x ? "nested iteration of the same pool" : "other pool used during an iteration");
	if (&y != &x && !y.busy && g.flip()) { std::string s = content(g); Buf b(s); interned(y, g, s, y.global ? str_find(b) : str_pool_find(y.p, b), 0, "find"); } else iterate(y, g);
	I = o;
}
static int cb(const char *s)
{
	CHECK(s, "the callback got a NULL string"); I->n++;
	auto i = I->x->in.find(s); CHECK(i != I->x->in.end(), "iteration presents \"%s\", which is not in the pool", printable(s).c_str());
	CHECK(i->second == s, "iteration presents \"%s\" at %p instead of %p", printable(s).c_str(), s, i->second);
	CHECK(I->seen.insert(s).second, "iteration presents \"%s\" twice", printable(s).c_str());
	if (I->look) {
		const std::string &k = I->x->in.begin()->first; const std::string &e = I->x->in.rbegin()->first;
		int r = I->x->global ? str_exists(k.c_str()) : str_pool_exists(I->x->p, k.c_str()); CHECK(r, "during an iteration \"%s\" is said not to exist", printable(k).c_str());
		const char *q = I->x->global ? str_find(e.c_str()) : str_pool_find(I->x->p, e.c_str()); CHECK(q == I->x->in.rbegin()->second, "during an iteration \"%s\" is found at %p", printable(e).c_str(), q);
	}
	if (ALL && depth < 3 && nests < 40 && I->nest && GG->chance(1, 8)) nests++, nested(*I->x);
	return I->n == I->stop ? I->val : 0;
}
static int cba(const char *s, void *a) { CHECK(a == I, "the callback got a wrong argument"); return cb(s); }

static void iterate(P &x, Gen &g)
{
	if (x.global) return;
	It it{}; it.x = &x; size_t n = x.in.size(); it.stop = n && g.chance(1, 3) ? 1 + (long)g.draw(n - 1) : -1; it.val = g.pick(std::vector<int>{ 1, -1, 256, INT32_MIN }); it.look = g.chance(1, 3) && n < 200; it.nest = g.chance(1, depth ? 6 : 3) && n < 100; I = &it; GG = &g; depth++; bool busy = x.busy; x.busy = true;
	unsigned kind = g.draw(busy ? 1 : 2); g.note("iterate kind %u%s", kind, it.stop > 0 ? ", stopped" : ""); g.label(it.stop > 0 ? "iteration stopped" : "iteration");
	if (kind < 2) {
		int r = kind ? str_pool_iterate_arg(x.p, cba, &it) : str_pool_iterate(x.p, cb);
		CHECK(!!r == (it.stop > 0), "iterating returned %d although it was %s", r, it.stop > 0 ? "stopped" : "complete");
	} else {
		str_Position pos; char *s; 
		if (it.stop < 0 && g.flip()) for (pos = str_pool_init_position(x.p); pos; pos = str_pool_next_position(x.p, pos)) { str_pool_get_position(pos, &s); cb(s); }
		else STR_ITERATE(x.p, pos, s) { if (cb(s)) { STR_ITERATE_END(x.p); break; } }
	}
	CHECK((size_t)it.n == (it.stop > 0 ? (size_t)it.stop : n), "iteration presents %ld strings of %zu%s", it.n, n, it.stop > 0 ? " (stopped)" : "");
	x.busy = busy; depth--; if (!busy) { int was = str_pool_readonly(x.p, 0); CHECK(!was, "the pool stays readonly after an iteration"); }
	x.reborn = true;
}
static void history(Gen &g)
{
	reset_lib(); P p[3]; p[0].global = true; int np = 1 + g.draw(2); for (int i = 1; i < np; i++) { p[i].p = str_pool_create(); CHECK(p[i].p, "str_pool_create returned NULL"); }
	ALL = p; NALL = np; depth = nests = 0;
	int w0 = np > 1 && g.flip();
	for (Loop l(g, 120, 1); l.more();) {
		int w = w0 ? 1 + g.draw(np - 2) : (int)g.draw(np - 1); P &x = p[w]; bool G = x.global;
		switch (g.weighted({ 8, 5, 5, 4, 3, 3, 3, 3, 1, 1, 2, 2 })) {
		case 0: { std::string s = content(g); Buf b(s); g.note("p%d find \"%s\"", w, printable(s).c_str()); interned(x, g, s, G ? str_find(b) : str_pool_find(x.p, b), 0, "find"); break; }
		case 1: { // by length: only the global pool has it
			std::string s = content(g, true); Buf b(s, g.flip()); g.note("p0 findn \"%s\"", printable(s).c_str()); interned(p[0], g, cstr(s), str_findn(b, (int)s.size()), 1, "str_findn"); break; }
		case 2: { std::string s; int parts = 0; for (Loop k(g, 5); k.more();) { std::string t = content(g); if (s.size() + t.size() > 200000) break; Buf b(t, false); if (G) str_grow(b, (int)t.size()); else str_pool_grow(x.p, b, (int)t.size()); s += t; parts++; }
			g.note("p%d grow %d parts and finish: \"%s\"", w, parts, printable(s).c_str()); interned(x, g, s, G ? str_finish() : str_pool_finish(x.p), 2, "finish"); break; }
		case 3: { std::string s; if (!x.in.empty() && g.flip()) { auto i = x.in.begin(); std::advance(i, g.draw(x.in.size() - 1)); s = i->first; if (g.chance(1, 3)) s += "a"; else if (!s.empty() && g.chance(1, 3)) s.pop_back(); } else s = content(g);
			Buf b(s); bool want = x.in.count(s); int r = G ? str_exists(b) : str_pool_exists(x.p, b); g.note("p%d exists \"%s\"", w, printable(s).c_str()); CHECK(!!r == want, "exists(\"%s\") is %d, but the string is %sin the pool", printable(s).c_str(), r, want ? "" : "not "); break; }
		case 4: { std::string s = content(g); Buf b(s); g.note("p%d copy \"%s\"", w, printable(s).c_str()); x.b.add(G ? str_copy(b) : str_pool_copy(x.p, b), s, "copy"); break; }
		case 5: { std::string s = content(g, true); Buf b(s, g.flip()); g.note("p%d copyn \"%s\"", w, printable(s).c_str()); x.b.add(G ? str_copyn(b, (int)s.size()) : str_pool_copyn(x.p, b, (int)s.size()), s, "copyn"); break; }
		case 6: { P &y = p[0]; std::string pre = g.flip() ? g.str(4, "ab1") : content(g); if (pre.size() > 5000) pre.resize(5000); Buf b(pre);
			auto uniq = [&](const char *bb) { const char *r = str_unique(bb); CHECK(r, "str_unique returned NULL"); std::string s = r; CHECK(s.size() >= pre.size() && s.substr(0, pre.size()) == pre, "str_unique(\"%s\") returned \"%s\"", printable(pre).c_str(), printable(s).c_str()); CHECK(!y.in.count(s), "str_unique returned \"%s\", which was in the pool", printable(s).c_str()); y.b.add(r, s, "str_unique"); y.in[s] = r; y.how[s] = 3; return s; };
			std::string s = uniq(b); 
			if (g.flip()) { // occupy the names a counter would produce next
				size_t k = s.size(); while (k > pre.size() && isdigit((unsigned char)s[k - 1])) k--;
				unsigned long n = strtoul(s.c_str() + std::max(k, pre.size()), nullptr, 10); g.label("unique names occupied"); g.nontrivial();
				for (unsigned i = 1, m = 1 + g.draw(12); i <= m; i++) { std::string t = s.substr(0, std::max(k, pre.size())) + std::to_string(n + i); Buf bt(t); interned(y, g, t, str_find(bt), 0, "find"); }
				uniq(b);
			}
			g.note("p0 unique \"%s\"", printable(pre).c_str()); break; }
		case 7: iterate(x, g); break;
		case 8: { g.note("p%d destroy", w); g.label("destroyed and used again"); x.b.verify("before destroying"); if (G) { str_destroy(); if (g.flip()) str_destroy(); } else { str_pool_destroy(x.p); x.p = str_pool_create(); } x.b.m.clear(); x.in.clear(); x.how.clear(); x.reborn = true; break; }
		case 9: { unsigned n = g.draw(900); std::string pre = g.str(2, "ab"); bool down = g.flip(); g.note("p%d finds %u strings \"%s...\"", w, n, pre.c_str()); if (n > 300) g.label("more than 300 strings");
			for (unsigned i = 0; i < n; i++) { std::string s = pre + std::to_string(down ? n - i : i); Buf b(s); interned(x, g, s, G ? str_find(b) : str_pool_find(x.p, b), 0, "find"); } break; }
		case 10: x.b.verify("later"); break;
		default: { char *t = nullptr; size_t n = 0; FILE *f = open_memstream(&t, &n); if (G) str_print_stats(f); else str_pool_print_stats(x.p, f); fclose(f); std::string s(t, n); free(t); same_on_stdout(s, [&](FILE *h) { if (G) str_print_stats(h); else str_pool_print_stats(x.p, h); });
			str_Stats st = G ? str_get_stats() : str_pool_get_stats(x.p); CHECK(st->count >= (int)x.b.m.size() && (x.b.m.size() || x.in.empty()), "the statistics report %d strings, but at least %zu are stored", st->count, x.b.m.size());
			char e[80]; snprintf(e, sizeof e, "   %d strings using %d bytes\n", st->count, st->bytes); CHECK(s.find(e) != std::string::npos, "the printed statistics lack \"%s\"", printable(std::string(e)).c_str()); xfree(st);
			if (!G) { int r = str_pool_readonly(x.p, 1); CHECK(!r, "the pool is readonly for no reason"); if (!x.in.empty()) { const char *q = str_pool_find(x.p, x.in.begin()->first.c_str()); CHECK(q == x.in.begin()->second, "a readonly pool finds \"%s\" elsewhere", printable(x.in.begin()->first).c_str()); } r = str_pool_readonly(x.p, 0); CHECK(r, "str_pool_readonly does not return the flag set before"); } }
		}
	}
	for (int i = 0; i < np; i++) { P &x = p[i]; x.b.verify("at the end"); for (auto &s : x.in) { const char *r = x.global ? str_find(s.first.c_str()) : str_pool_find(x.p, s.first.c_str()); CHECK(r == s.second, "at the end \"%s\" is found at %p instead of %p", printable(s.first).c_str(), r, s.second); } }
	for (int i = np - 1; i > 0; i--) { str_pool_destroy(p[i].p); for (int j = 0; j < i; j++) p[j].b.verify("after another pool was destroyed"); }
	str_destroy(); ALL = nullptr;
}
// the first function used on a global pool that does not exist yet
static void first(Gen &g)
{
	for (Loop l(g, 4, 1); l.more();) {
		reset_lib(); unsigned k = g.draw(9); std::string s = content(g); Buf b(s); g.note("first use %u \"%s\"", k, printable(s).c_str()); g.nontrivial();
		const char *r = nullptr; std::string want = s;
		switch (k) {
		case 0: r = str_find(b); break; case 1: r = str_findn(b, (int)s.size()); break; case 2: r = str_copy(b); break; case 3: r = str_copyn(b, (int)s.size()); break;
		case 4: str_grow(b, (int)s.size()); r = str_finish(); break; case 5: r = str_finish(); want = ""; break;
		case 6: CHECK(!str_exists(b), "a string exists in a pool never used"); break;
		case 7: if (s.size() > 5000) break; r = str_unique(b); CHECK(r && std::string(r).substr(0, s.size()) == s, "str_unique(\"%s\") is \"%s\"", printable(s).c_str(), printable(r).c_str()); want = r; break;
		case 8: { str_Stats st = str_get_stats(); CHECK(!st->count && !st->bytes, "a pool never used has strings"); xfree(st); char *t = nullptr; size_t n = 0; FILE *f = open_memstream(&t, &n); str_print_stats(f); fclose(f); free(t); break; }
		default: str_destroy(); }
		if (r) CHECK(std::string(r) == want, "the first use of the pool gave \"%s\", expected \"%s\"", printable(r).c_str(), printable(want).c_str());
		bool in = r && k != 2 && k != 3; int e = r ? str_exists(want.c_str()) : 0; CHECK(!!e == in, "after first use %u \"%s\" is %sin the pool", k, printable(want).c_str(), e ? "" : "not ");
		const char *q = str_find(b); CHECK(q && std::string(q) == s, "str_find returned \"%s\"", printable(q).c_str()); if (in && want == s) CHECK(q == r, "equal strings at different places");
		str_destroy(); if (g.flip()) str_destroy();
	}
}
// Many strings, or long ones.
static void at_scale(Gen &g)
{
	reset_lib(); P x; x.global = g.flip(); if (!x.global) x.p = str_pool_create(); unsigned n = scale(g); bool many = g.flip(); g.note(many ? "%u strings" : "strings of %u bytes and more", n);
	auto find = [&](const char *s) { return x.global ? str_find(s) : str_pool_find(x.p, s); };
	if (many) { std::vector<const char *> at(n); char b[16]; std::set<const char *> d; for (unsigned i = 0; i < n; i++) { snprintf(b, sizeof b, "%x", i); at[i] = find(b); CHECK(at[i] && at[i] != b && !strcmp(at[i], b), "find(\"%s\") gave \"%s\"", b, printable(at[i]).c_str()); d.insert(at[i]); } CHECK(d.size() == n, "%u strings have %zu addresses", n, d.size());
		for (unsigned i = 0; i < n; i++) { snprintf(b, sizeof b, "%x", i); CHECK(!strcmp(at[i], b), "string %u of %u changed to \"%s\"", i, n, printable(at[i]).c_str()); CHECK(find(b) == at[i], "string %u of %u is found elsewhere", i, n); CHECK(x.global ? str_exists(b) : str_pool_exists(x.p, b), "string %u of %u does not exist", i, n); snprintf(b, sizeof b, "%x", n + i); CHECK(!(x.global ? str_exists(b) : str_pool_exists(x.p, b)), "string %s exists", b); }
		if (!x.global) { str_Position p; char *s; size_t k = 0; STR_ITERATE(x.p, p, s) { k++; CHECK(d.erase(s), "the iteration presents \"%s\" twice or at a wrong address", printable(s).c_str()); } CHECK(k == n, "the iteration presents %zu strings of %u", k, n); } }
	else { std::vector<std::string> v; n = std::min(n, 200000u); for (Loop l(g, 10, 2); l.more();) { std::string s; if (!v.empty() && g.chance(3, 4)) { s = v[g.draw(v.size() - 1)]; if (g.flip()) { if (g.flip()) s.back() ^= 1; else s[g.draw(s.size() - 1)] ^= 1; } else if (g.flip()) s.pop_back(); for (auto &c : s) if (!c) c = 2; } else { unsigned a = g.draw(255), len = n + g.draw(3); for (unsigned i = 0; i < len; i++) s += (char)((a + i * 7 + (i >> 8)) | 1); } v.push_back(s);
			Buf b(s); bool had = x.in.count(s); CHECK(!!(x.global ? str_exists(b) : str_pool_exists(x.p, b)) == had, "a string of %zu bytes is said %sto exist", s.size(), had ? "not " : "");
			switch (g.draw(3)) { case 0: interned(x, g, s, find(b), 0, "find"); break; case 1: if (x.global) interned(x, g, s, str_findn(b, (int)s.size()), 1, "str_findn"); break; case 2: { for (size_t i = 0, st = 1 + g.draw(70000); i < s.size(); i += st) { size_t k = std::min(st, s.size() - i); if (x.global) str_grow(&s[i], (int)k); else str_pool_grow(x.p, &s[i], (int)k); } interned(x, g, s, x.global ? str_finish() : str_pool_finish(x.p), 2, "finish"); break; } default: x.b.add(x.global ? str_copyn(b, (int)s.size()) : str_pool_copy(x.p, b), s, "copy"); } } x.b.verify("at the end"); }
	if (x.global) str_destroy(); else str_pool_destroy(x.p);
}
// strings that do not fit a stack of the usual 8 MB
static void huge(Gen &g)
{
	reset_lib(); g.nontrivial(); size_t n = 8400000 + g.draw(1000000); std::string s(n, 'a' + g.draw(20)); s[g.draw(n - 1)] = 'z'; P x; x.global = g.chance(3, 4); if (!x.global) x.p = str_pool_create(); g.note("a string of %zu bytes", n); Buf b(s);
	for (unsigned k = 0, o = g.draw(3); k < 4; k++) switch ((k + o) % 4) {
	case 0: interned(x, g, s, x.global ? str_find(b) : str_pool_find(x.p, b), 0, "find"); break;
	case 1: if (x.global) { std::string t = s.substr(0, n - g.draw(2)); interned(x, g, t, str_findn(b, (int)t.size()), 1, "str_findn"); } break;
	case 2: if (x.global) { const char *r = str_unique(b); CHECK(r && strlen(r) > n && !memcmp(r, s.data(), n), "str_unique of a long prefix returned another one"); CHECK(str_find(r) == r, "a unique string is found elsewhere"); } break;
	default: { const char *r = x.global ? str_copyn(b, (int)n) : str_pool_copyn(x.p, b, (int)n); CHECK(r && s == r, "the copy differs"); if (x.global) str_grow(b, (int)n); else str_pool_grow(x.p, b, (int)n); interned(x, g, s, x.global ? str_finish() : str_pool_finish(x.p), 2, "finish"); }
	}
	if (x.global) str_destroy(); else str_pool_destroy(x.p);
}
static Target t8("huge", 12, 200, huge, false);
static Target t9("at scale", 60, 2000, at_scale, false);
static Target t1("history", 60000, 3000000, history);
static Target t2("first use", 20000, 500000, first);
