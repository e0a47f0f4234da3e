#include "buf.h"
const char *PROPERTY = "C09", *LEVEL = "exploration";
const char *RULE = "A case is a history over up to three string heaps of copies of whole strings, copies by length (any bytes, source exactly that long), grown strings (any number of pieces, empty ones included, other heaps used in between), statistics and printing, and destruction and re-creation; every stored string stays in a model of live blocks that must not overlap, and all are compared at random points and at the end, after the caller's buffers were overwritten and freed. "
	"Non-trivial: a string was grown from two or more pieces, or a heap held strings of more than one kind.";
const char *ASSUMPTIONS = "nothing else is done to a heap between the first grow and the finish";
struct H { mem_String h = nullptr; Blocks b; long count = 0, bytes = 0; unsigned kinds = 0; bool growing = false; std::string part; int parts = 0; };
static void stats(H &x)
{
	mem_StringStats s = mem_get_string_stats(x.h); CHECK(s, "mem_get_string_stats returned NULL");
	CHECK(s->count == x.count, "the statistics report %d strings, %ld were stored", s->count, x.count);
	CHECK(s->bytes == x.bytes, "the statistics report %d bytes for strings of %ld bytes", s->bytes, x.bytes); xfree(s);
	char *t = nullptr; size_t n = 0; FILE *f = open_memstream(&t, &n); mem_print_string_stats(x.h, f); fclose(f); std::string p(t, n); free(t); same_on_stdout(p, [&](FILE *h) { mem_print_string_stats(x.h, h); });
	char e[80]; snprintf(e, sizeof e, "   %ld strings, using %ld bytes\n", x.count, x.bytes); CHECK(p.find(e) != std::string::npos, "the printed statistics are \"%s\", expected \"%s\"", printable(p, 200).c_str(), printable(std::string(e)).c_str());
}
static void stored(H &x, Gen &g, const char *r, const std::string &s, int kind, const char *what)
{
	x.b.add(r, s, what); x.count++; x.bytes += s.size() + 1; x.kinds |= 1u << kind; if (x.kinds & (x.kinds - 1)) g.nontrivial();
}
static void finish(H &x, Gen &g)
{
	const char *r = mem_finish(x.h); if (x.parts > 1) { g.nontrivial(); g.label("grown from pieces"); }
	g.note("finish: \"%s\"", printable(x.part).c_str()); stored(x, g, r, x.part, 2, "mem_finish"); x.growing = false; x.part.clear(); x.parts = 0;
}
static void history(Gen &g)
{
	reset_lib(); H p[3]; int n = 1 + g.draw(2); for (int i = 0; i < n; i++) { p[i].h = mem_create_strings(); CHECK(p[i].h, "mem_create_strings returned NULL"); }
	for (Loop l(g, 150, 1); l.more();) {
		int w = g.draw(n - 1); H &x = p[w];
		if (x.growing && g.chance(2, 5)) { finish(x, g); continue; }
		if (x.growing) { std::string s = content(g, true); Buf b(s, false); g.note("h%d grow \"%s\"", w, printable(s).c_str()); mem_grow(x.h, b, (int)s.size()); x.part += s; x.parts++; continue; }
		switch (g.weighted({ 4, 4, 5, 1, 1, 1, 1, 1 })) {
		case 0: { std::string s = content(g); Buf b(s); g.note("h%d strcpy \"%s\"", w, printable(s).c_str()); stored(x, g, mem_strcpy(x.h, b), s, 0, "mem_strcpy"); break; }
		case 1: { std::string s = content(g, true); Buf b(s, false); g.note("h%d strncpy \"%s\"", w, printable(s).c_str()); stored(x, g, mem_strncpy(x.h, b, (int)s.size()), s, 1, "mem_strncpy"); break; }
		case 2: { std::string s = content(g, true); Buf b(s, false); g.note("h%d grow \"%s\"", w, printable(s).c_str()); mem_grow(x.h, b, (int)s.size()); x.part = s; x.parts = 1; x.growing = true; break; }
		case 3: finish(x, g); break;   // nothing grown: an empty string
		case 4: stats(x); break;
		case 5: x.b.verify("later"); break;
		case 6: { unsigned k = g.draw(1200); g.note("h%d %u strings", w, k); if (k > 500) g.label("more than 500 strings"); for (unsigned i = 0; i < k; i++) { std::string s = std::to_string(i); Buf b(s); stored(x, g, i & 1 ? mem_strncpy(x.h, b, (int)s.size()) : mem_strcpy(x.h, b), s, 0, "copy"); } stats(x); break; }
		default: g.note("h%d destroy", w); x.b.verify("before destroying"); mem_destroy_strings(x.h); x = H(); x.h = mem_create_strings(); stats(x);
		}
	}
	for (int i = 0; i < n; i++) if (p[i].growing) finish(p[i], g);
	for (int i = 0; i < n; i++) { p[i].b.verify("at the end"); stats(p[i]); }
	for (int i = 0; i < n; i++) { mem_destroy_strings(p[i].h); for (int j = i + 1; j < n; j++) p[j].b.verify("after another heap was destroyed"); }
}
// Many strings, or long ones.
static void at_scale(Gen &g)
{
	reset_lib(); H x; x.h = mem_create_strings(); unsigned n = scale(g); bool many = g.flip(); g.note(many ? "%u strings" : "strings of %u bytes and more", n);
	if (many) for (unsigned i = 0; i < n; i++) { char b[16]; int k = snprintf(b, sizeof b, "%x", i * 7919u); stored(x, g, i & 1 ? mem_strncpy(x.h, b, k) : mem_strcpy(x.h, b), std::string(b, k), i & 1, "copy"); }
	else for (Loop l(g, 4, 1); l.more();) { unsigned a = g.draw(255), len = n + g.draw(10); std::string s; for (unsigned i = 0; i < len; i++) s += (char)((a + i * 7 + (i >> 8)) | 1);
		switch (g.draw(2)) { case 0: { Buf b(s); stored(x, g, mem_strcpy(x.h, b), s, 0, "mem_strcpy"); break; } case 1: { s[g.draw(len - 1)] = 0; Buf b(s, false); stored(x, g, mem_strncpy(x.h, b, (int)len), s, 1, "mem_strncpy"); break; }
		default: { unsigned at = g.draw(len), step = g.flip() ? len : 1 + g.draw(40000); { Buf b(s.substr(0, at), false); mem_grow(x.h, b, (int)at); } x.parts = 1; for (size_t i = at; i < len; i += step) { std::string p = s.substr(i, step); Buf b(p, false); mem_grow(x.h, b, (int)p.size()); x.parts++; } x.part = s; finish(x, g); } } }
	stats(x); x.b.verify("at the end"); mem_destroy_strings(x.h);
}
static Target t2("at scale", 160, 4000, at_scale, false);
static Target t1("history", 60000, 3000000, history);
