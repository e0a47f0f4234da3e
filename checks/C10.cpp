#include "lib.h"
const char *PROPERTY = "C10", *LEVEL = "exploration";
const char *RULE = "A case is a history over up to three object heaps (object sizes 1 to 5000) of getting objects, getting empty objects, freeing any object in use, bursts of each, and statistics, with every object filled with its own pattern over its full size while in use; the model knows all addresses ever allocated and which are free. "
	"Non-trivial: an object was recycled.";
const char *ASSUMPTIONS = "an object is freed once, to the heap it came from, and not used afterwards";
struct H { mem_Object h = nullptr; size_t size = 0; std::map<char *, unsigned> used; std::set<char *> freed; long total = 0, reused = 0; };
static unsigned seq;
static unsigned char pat(unsigned id, size_t i) { return (unsigned char)(mix64(id * 1000003ull + i) | 1); }
static void fill(H &x, char *o, unsigned id) { for (size_t i = 0; i < x.size; i++) o[i] = (char)pat(id, i); }
static void verify(H &x, char *o, unsigned id, const char *when) { for (size_t i = 0; i < x.size; i++) CHECK((unsigned char)o[i] == pat(id, i), "%s: byte %zu of %zu of an object in use changed", when, i, x.size); }
static void verify_all(H &x, const char *when) { for (auto &o : x.used) verify(x, o.first, o.second, when); }
static void stats(H &x)
{
	mem_ObjectStats s = mem_get_object_stats(x.h); CHECK(s, "mem_get_object_stats returned NULL");
	CHECK(s->total == x.total, "the statistics report %d objects allocated, expected %ld", s->total, x.total);
	CHECK(s->used == (int)x.used.size(), "the statistics report %d objects in use, expected %zu", s->used, x.used.size());
	CHECK(s->reused == x.reused, "the statistics report %d reuses, expected %ld", s->reused, x.reused);
	CHECK(s->size == (int)x.size, "the statistics report size %d, expected %zu", s->size, x.size); xfree(s);
	char *t = nullptr; size_t n = 0; FILE *f = open_memstream(&t, &n); mem_print_object_stats(x.h, f); fclose(f); std::string p(t, n); free(t); same_on_stdout(p, [&](FILE *h) { mem_print_object_stats(x.h, h); });
	char e[160]; snprintf(e, sizeof e, "   %ld objects allocated, of which %zu are in use\n   %ld objects have been reused\n", x.total, x.used.size(), x.reused); CHECK(p.find(e) != std::string::npos, "the printed statistics are \"%s\", expected \"%s\"", printable(p, 200).c_str(), printable(std::string(e), 200).c_str());
}
static void get(H &x, Gen &g, bool empty, std::vector<H *> all)
{
	char *o = (char *)(empty ? mem_get_empty_object(x.h) : mem_get_object(x.h)); CHECK(o, "got a NULL object");
	size_t al = x.size & -x.size; if (al > 8) al = 8; CHECK((uintptr_t)o % al == 0, "an object of %zu bytes is at %p, not fit for data of %zu bytes", x.size, o, al);
	if (empty) for (size_t i = 0; i < x.size; i++) CHECK(!o[i], "byte %zu of %zu of an empty object is 0x%02x", i, x.size, (unsigned char)o[i]);
	if (!x.freed.empty()) { CHECK(x.freed.count(o), "%zu freed objects are there, but the object obtained is not one of them", x.freed.size()); x.freed.erase(o); x.reused++; g.nontrivial(); g.label(empty ? "recycled empty" : "recycled"); }
	else { x.total++;
		for (H *y : all) { auto ov = [&](char *q, size_t n) { return (uintptr_t)o < (uintptr_t)q + n && (uintptr_t)q < (uintptr_t)o + x.size; };
			auto i = y->used.lower_bound(o); if (i != y->used.end()) CHECK(!ov(i->first, y->size), "the new object overlaps one in use"); if (i != y->used.begin()) { --i; CHECK(!ov(i->first, y->size), "the new object overlaps one in use"); }
			auto j = y->freed.lower_bound(o); if (j != y->freed.end()) CHECK(!ov(*j, y->size), "the new object overlaps a freed one of a heap"); if (j != y->freed.begin()) { --j; CHECK(!ov(*j, y->size), "the new object overlaps a freed one of a heap"); } } }
	unsigned id = ++seq; x.used[o] = id; fill(x, o, id);
}
static void put(H &x, size_t k) { auto i = x.used.begin(); std::advance(i, k); verify(x, i->first, i->second, "when freeing"); char *o = i->first; x.used.erase(i); x.freed.insert(o); mem_free_object(x.h, o); }
static void history(Gen &g)
{
	reset_lib(); seq = 0; H p[3]; int n = 1 + g.draw(2); std::vector<H *> all;
	auto make = [&](H &x) { x = H(); x.size = 1 + (g.chance(1, 4) ? g.small(4999) : g.draw(63)); x.h = mem_create_objects((int)x.size); CHECK(x.h, "mem_create_objects returned NULL"); };
	for (int i = 0; i < n; i++) { make(p[i]); all.push_back(&p[i]); }
	for (Loop l(g, 200, 1); l.more();) {
		int w = g.draw(n - 1); H &x = p[w];
		switch (g.weighted({ 8, 6, 9, 2, 2, 1, 2, 1 })) {
		case 0: g.note("h%d get", w); get(x, g, false, all); break;
		case 1: g.note("h%d get empty", w); get(x, g, true, all); break;
		case 2: if (!x.used.empty()) { size_t k = g.draw(x.used.size() - 1); g.note("h%d free number %zu by address", w, k); put(x, k); } break;
		case 3: { unsigned k = g.draw(60); if (x.size > 500) k /= 8; g.note("h%d get %u", w, k); bool e = g.flip(); while (k--) get(x, g, e, all); break; }
		case 4: { size_t k = g.draw(x.used.size()); g.note("h%d free %zu", w, k); bool top = g.flip(); while (k--) put(x, top ? x.used.size() - 1 : 0); break; }
		case 5: stats(x); break;
		case 6: verify_all(x, "later"); break;
		default: g.note("h%d destroy", w); verify_all(x, "before destroying"); mem_destroy_objects(x.h); make(x); }
	}
	for (int i = 0; i < n; i++) { verify_all(p[i], "at the end"); stats(p[i]); }
	for (int i = 0; i < n; i++) { mem_destroy_objects(p[i].h); for (int j = i + 1; j < n; j++) verify_all(p[j], "after another heap was destroyed"); }
}
// Many small objects, many reuses, or large objects.
static void at_scale(Gen &g)
{
	reset_lib(); seq = 0; H x; unsigned n = scale(g); unsigned kind = g.draw(2); std::vector<H *> all(1, &x); x.size = kind == 2 ? n : 1 + g.draw(15); x.h = mem_create_objects((int)x.size); g.note(kind == 0 ? "%u objects of %zu" : kind == 1 ? "%u reuses of objects of %zu" : "%u: objects of %zu", n, x.size);
	if (kind == 0) { for (unsigned i = 0; i < n; i++) get(x, g, i & 1, all); stats(x); unsigned f = g.draw(n); while (f--) put(x, 0); stats(x); f = g.draw(n); while (f--) get(x, g, f & 1, all); }
	else if (kind == 1) for (unsigned i = 0, k = 1 + g.draw(3); i < n; i++) { if (x.used.size() < k) get(x, g, i % 3 == 0, all); else { put(x, i % x.used.size()); get(x, g, i % 5 == 0, all); } }
	else for (Loop l(g, 12, 2); l.more();) { if (g.chance(1, 3) && !x.used.empty()) put(x, g.draw(x.used.size() - 1)); else get(x, g, g.flip(), all); if (g.chance(1, 4)) stats(x); }
	stats(x); verify_all(x, "at the end"); mem_destroy_objects(x.h);
}
static Target t2("at scale", 120, 3000, at_scale, false);
static Target t1("history", 180000, 3000000, history);
