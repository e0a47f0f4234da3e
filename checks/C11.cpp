#include "buf.h"
#include <limits.h>
const char *PROPERTY = "C11", *LEVEL = "exploration";
const char *RULE = "A case is a history over up to three argument lists of additions (whole, by length with any bytes and an exactly long source, grown in pieces with reads of the list and other lists used in between), bursts of them, reads by index, count and vector, and destruction and re-creation; caller's buffers are overwritten and freed at once, and every returned pointer must stay the same with the same contents. "
	"outside: asking for an item outside a list of any size must abort. Non-trivial: a list of more than two items, or an item grown from pieces.";
const char *ASSUMPTIONS = "nothing else is added to a list between the first grow and the finish";
struct H { arg_List h = nullptr; std::vector<std::string> m; std::vector<const char *> at; Blocks b; bool growing = false; std::string part; int parts = 0; };
static void check(H &x, Gen &g, bool deep)
{
	int n = arg_count(x.h); CHECK(n == (int)x.m.size(), "arg_count is %d, expected %zu", n, x.m.size());
	int c = -1; char **v = nullptr; arg_get_vector(x.h, &c, &v); CHECK(c == n && v, "arg_get_vector gives argc %d and argv %p for %d items", c, v, n); CHECK(!v[n], "argv[%d] of %d items is not NULL", n, n);
	if (!deep) { if (n) { int i = g.draw(n - 1); CHECK(arg_get(x.h, i) == x.at[i], "item %d of %d moved", i, n); } return; }
	for (int i = 0; i < n; i++) { const char *r = arg_get(x.h, i); CHECK(v[i] == r, "argv[%d] and arg_get(%d) differ", i, i); CHECK(r == x.at[i], "item %d of %d moved", i, n); const std::string &s = x.m[i]; CHECK(!memcmp(r, s.data(), s.size()) && !r[s.size()], "item %d of %d is \"%s\", expected \"%s\"", i, n, printable(std::string(r, strnlen(r, s.size() + 1))).c_str(), printable(s).c_str()); }
	x.b.verify("later");
}
static void added(H &x, Gen &g, const std::string &s, arg_List r, const char *what)
{
	CHECK(r == x.h, "%s returned %p instead of the list", what, (void *)r); int n = arg_count(x.h); CHECK(n == (int)x.m.size() + 1, "%s: %d items after adding to %zu", what, n, x.m.size());
	const char *q = arg_get(x.h, n - 1); x.b.add(q, s, what); x.m.push_back(s); x.at.push_back(q); if (n > 2) g.nontrivial();
}
static void history(Gen &g)
{
	reset_lib(); H p[3]; int n = 1 + g.draw(2); for (int i = 0; i < n; i++) { p[i].h = arg_create(); CHECK(p[i].h, "arg_create returned NULL"); check(p[i], g, true); }
	auto finish = [&](H &x) { arg_List r = arg_finish(x.h); g.note("finish \"%s\"", printable(x.part).c_str()); if (x.parts > 1) { g.nontrivial(); g.label("grown from pieces"); } added(x, g, x.part, r, "arg_finish"); x.growing = false; x.part.clear(); x.parts = 0; };
	for (Loop l(g, 120, 1); l.more();) {
		int w = g.draw(n - 1); H &x = p[w];
		if (x.growing && g.chance(2, 5)) { finish(x); continue; }
		if (x.growing) { if (g.chance(1, 4)) { check(x, g, true); continue; } std::string s = content(g, true); Buf b(s, false); g.note("l%d grow \"%s\"", w, printable(s).c_str()); arg_grow(x.h, b, (int)s.size()); x.part += s; x.parts++; continue; }
		switch (g.weighted({ 6, 5, 4, 1, 1, 1, 1 })) {
		case 0: { std::string s = content(g); Buf b(s); g.note("l%d add \"%s\"", w, printable(s).c_str()); added(x, g, s, arg_add(x.h, b), "arg_add"); break; }
		case 1: { std::string s = content(g, true); Buf b(s, false); g.note("l%d addn \"%s\"", w, printable(s).c_str()); added(x, g, s, arg_addn(x.h, b, (int)s.size()), "arg_addn"); break; }
		case 2: { std::string s = content(g, true); Buf b(s, false); g.note("l%d grow \"%s\"", w, printable(s).c_str()); arg_grow(x.h, b, (int)s.size()); x.part = s; x.parts = 1; x.growing = true; break; }
		case 3: finish(x); break;
		case 4: { unsigned k = g.draw(g.chance(1, 8) ? 1500 : 70), kind = g.draw(2); g.note("l%d %u items", w, k); if (k > 500) g.label("more than 500 items"); for (unsigned i = 0; i < k; i++) { std::string s = std::to_string(i * 7); Buf b(s, kind == 0); if (kind == 2) arg_grow(x.h, b, (int)s.size()); added(x, g, s, kind == 0 ? arg_add(x.h, b) : kind == 1 ? arg_addn(x.h, b, (int)s.size()) : arg_finish(x.h), "addition"); } check(x, g, true); break; }
		case 5: check(x, g, true); break;
		default: g.note("l%d destroy", w); check(x, g, true); arg_destroy(x.h); x = H(); x.h = arg_create(); }
		check(x, g, x.m.size() < 20);
	}
	for (int i = 0; i < n; i++) { if (p[i].growing) finish(p[i]); check(p[i], g, true); }
	for (int i = 0; i < n; i++) { arg_destroy(p[i].h); for (int j = i + 1; j < n; j++) check(p[j], g, true); }
}
static void outside(Gen &g)
{
	reset_lib(); arg_List a = arg_create(); unsigned n = g.draw(3) == 0 ? 0 : g.small(70); for (unsigned i = 0; i < n; i++) arg_add(a, "x");
	int k; switch (g.draw(3)) { case 0: k = (int)n; break; case 1: k = -1; break; case 2: k = g.flip() ? INT_MAX : INT_MIN; break; default: k = (int)g.wide(32); if (k >= 0 && k < (int)n) k += n; }
	g.note("item %d of %u", k, n); g.nontrivial(); const char *r = nullptr;
	Outcome o = run_forked([&] { r = arg_get(a, k); fprintf(stderr, "returned %p\n", r); });
	CHECK(o.aborted() && o.err.find("Internal error") != std::string::npos, "asking for item %d of %u should abort with a diagnosis: it %s", k, n, o.str().c_str());
	arg_destroy(a);
}
// Many items, or long ones.
static void at_scale(Gen &g)
{
	reset_lib(); H x; x.h = arg_create(); unsigned n = scale(g), kind = g.draw(3);
	if (kind) { g.note("%u items", n); for (unsigned i = 0; i < n; i++) { char b[16]; int k = snprintf(b, sizeof b, "%x", i * 7919u); if (kind == 2) { arg_grow(x.h, b, k); added(x, g, std::string(b, k), arg_finish(x.h), "arg_finish"); } else added(x, g, std::string(b, k), i & 1 ? arg_addn(x.h, b, k) : arg_add(x.h, b), "addition"); if (i % 16384 == 16383) check(x, g, false); } }
	else for (Loop l(g, 4, 1); l.more();) { unsigned a = g.draw(255), len = n + g.draw(10); std::string s; for (unsigned i = 0; i < len; i++) s += (char)((a + i * 7 + (i >> 8)) | 1); g.note("an item of %u bytes", len);
		switch (g.draw(2)) { case 0: { Buf b(s); added(x, g, s, arg_add(x.h, b), "arg_add"); break; } case 1: { Buf b(s, false); added(x, g, s, arg_addn(x.h, b, (int)len), "arg_addn"); break; }
		default: { unsigned step = 1 + g.draw(40000); for (size_t i = 0; i < len; i += step) { std::string p = s.substr(i, step); Buf b(p, false); arg_grow(x.h, b, (int)p.size()); } added(x, g, s, arg_finish(x.h), "arg_finish"); } } check(x, g, true); }
	check(x, g, true); arg_destroy(x.h);
}
static Target t3("at scale", 80, 2500, at_scale, false);
static Target t1("history", 120000, 3000000, history);
static Target t2("outside", 2000, 20000, outside, false);
