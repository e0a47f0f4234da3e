#include "ops.h"
const char *PROPERTY = "C26", *LEVEL = "fault_enumeration";
const char *RULE = "faults: a case is a program of up to 14 steps over all modules (as in C24), run once to count the allocations the library makes, and then once for every one of them (a random selection of 24 if there are more) with that allocation failing, each in a process of its own: it must end with status 1 and a report on standard error, without a memory error, and before the operation returns. "
	"wrappers: every allocation wrapper with sizes up to 2 MB, contents checked in full; each size too large for the system, products that overflow, and xfree(NULL) must be fatal errors. Non-trivial: at least two allocations were made to fail.";
const char *ASSUMPTIONS = "only allocations of the library itself fail, not those inside the C library\nsizes are not 0";
using namespace ops;
static const std::vector<unsigned> W = { 10, 10, 8, 6, 8, 5, 5, 4, 8, 8, 4, 4, 6, 3, 1, 3, 1, 1, 4 };
struct Report { long allocs, failed; int op; };
static void execute(const Program &p, long fail_at, bool init)
{
	Report *r = (Report *)xfer; reset_lib(); make_user(); setvbuf(stderr, nullptr, _IONBF, 0); vf.clock = true; vf.real = 1000000000000000; trace = nullptr; Machine *m = new Machine; m->logname = scratch_dir() + "/logs"; r->op = -1;
	vf.counting = init; vf.allocs = 0; vf.fail_at = fail_at;
	maa_init("program"); vf.counting = true;
	for (auto &q : p) { r->op = q.op; m->step(q); CHECK(!vf.failed, "%s went on although an allocation failed", op_name[q.op]); }
	r->op = NOPS; m->destroy_objects(1); CHECK(!vf.failed, "destroying the objects went on although an allocation failed");
	r->allocs = vf.allocs; vf.counting = false; maa_shutdown();
}
static void faults(Gen &g)
{
	Program p = program(g, 14, W); for (auto &q : p) if (q.op == ERR) q.b &= ~4u; bool init = g.chance(1, 8); Report *rep = (Report *)xfer; ForkOpts fo; fo.wall = 30;
	memset(xfer, 0, sizeof(Report)); Outcome o = run_forked([&] { execute(p, 0, init); }, fo); must_return(o, "a program with enough memory"); long n = rep->allocs;
	std::vector<long> at; if (n <= 24) for (long i = 1; i <= n; i++) at.push_back(i); else { std::set<long> z; while (z.size() < 24) { long x = 1 + (long)g.draw(n - 1); while (z.count(x)) x = x % n + 1; z.insert(x); } at.assign(z.begin(), z.end()); }
	g.note("%ld allocations, %zu of them made to fail", n, at.size()); if (at.size() > 1) g.nontrivial();
	for (long i : at) {
		memset(xfer, 0, sizeof(Report)); rep->op = -1; o = run_forked([&] { execute(p, i, init); }, fo); const char *w = rep->op < 0 ? "initialisation" : rep->op < NOPS ? op_name[rep->op] : "destroying the objects"; g.label((std::string("failed in ") + w).c_str());
		CHECK(o.exit1(), "allocation %ld of %ld (in %s) failed, and the process %s", i, n, w, o.str().c_str()); CHECK(!o.err.empty(), "allocation %ld of %ld (in %s) failed and nothing was reported", i, n, w);
	}
}
static void wrappers(Gen &g)
{
	reset_lib(); vf_track_start(); struct X { unsigned char *p; size_t n; unsigned char c; }; std::vector<X> v;
	auto size = [&] { return (size_t)(g.flip() ? 1 + g.small(300) : 1 + g.draw(g.chance(1, 20) ? 2000000 : 20000)); }; auto full = [&](const X &x) { for (size_t i = 0; i < x.n; i++) CHECK(x.p[i] == x.c, "byte %zu of a block of %zu changed", i, x.n); };
	for (Loop l(g, 30, 1); l.more();) { X x; switch (g.draw(4)) {
		case 0: x.n = size(); g.note("xmalloc %zu", x.n); x.p = (unsigned char *)xmalloc(x.n); CHECK(x.p, "xmalloc returned NULL"); break;
		case 1: { size_t k = 1 + g.small(60), n = size() / k + 1; x.n = k * n; g.note("xcalloc %zu %zu", k, n); x.p = (unsigned char *)xcalloc(k, n); CHECK(x.p, "xcalloc returned NULL"); for (size_t i = 0; i < x.n; i++) CHECK(!x.p[i], "byte %zu of a cleared block of %zu is 0x%02x", i, x.n, x.p[i]); break; }
		case 2: if (v.empty()) { x.n = size(); x.p = (unsigned char *)xrealloc(nullptr, x.n); CHECK(x.p, "xrealloc returned NULL"); } else { size_t j = g.draw(v.size() - 1); x = v[j]; v.erase(v.begin() + j); size_t m = x.n; x.n = size(); g.note("xrealloc %zu to %zu", m, x.n); x.p = (unsigned char *)xrealloc(x.p, x.n); for (size_t i = 0; i < m && i < x.n; i++) CHECK(x.p[i] == x.c, "byte %zu is lost when a block of %zu becomes one of %zu", i, m, x.n); g.nontrivial(); } break;
		case 3: { std::string s = content(g); Buf b(s); g.note("xstrdup %zu", s.size()); char *q = xstrdup(b); CHECK(q && q != (const char *)b && s == q, "xstrdup made \"%s\" of \"%s\"", printable(q).c_str(), printable(s).c_str()); x.p = (unsigned char *)q; x.n = s.size() + 1; break; }
		default: if (v.empty()) continue; { size_t j = g.draw(v.size() - 1); full(v[j]); xfree(v[j].p); v.erase(v.begin() + j); g.note("xfree"); continue; } }
		x.c = (unsigned char)g.draw(255); memset(x.p, x.c, x.n); v.push_back(x); size_t n; CHECK(vf_is_live(x.p, &n) && n >= x.n, "the block of %zu bytes is no allocation of that size", x.n); }
	for (auto &x : v) { full(x); xfree(x.p); } CHECK(vf_live() == 0, "%ld blocks are left:%s", vf_live(), vf_live_report().c_str()); vf_track_stop();
}
static void refused(Gen &g)
{
	unsigned k = g.draw(5); size_t wrap = 1 + g.draw(61); bool wraps = g.flip(); size_t huge = ~(size_t)0 - g.draw(100000); if (g.flip()) huge = ((size_t)1 << (63 - g.draw(10))) + g.draw(1000); bool denied = g.flip(); size_t n = 1 + g.small(5000), m = 2 + g.draw(1000); g.nontrivial(); const char *w = "";
	if (k == 5 && g.chance(3, 4)) k = g.draw(4); g.note("wrapper %u, %s", k, k == 5 ? "NULL" : denied ? "denied" : "too large");
	Outcome o = run_forked([&] { reset_lib(); vf.counting = denied; vf.fail_at = denied ? 1 : 0; void *p = malloc(8); switch (k) { case 0: xmalloc(denied ? n : huge); break; case 1: if (wraps && !denied) xcalloc((size_t)1 << wrap, ((size_t)1 << (64 - wrap)) + m % 4); else xcalloc(denied ? m : huge / m + 1, denied ? n : m + 1); break; case 2: xrealloc(p, denied ? n : huge); break; case 3: xrealloc(nullptr, denied ? n : huge); break; case 4: { vf.counting = true; vf.fail_at = 1; std::string s(n, 'x'); xstrdup(s.c_str()); break; } default: xfree(nullptr); } });
	static const char *nm[] = { "xmalloc", "xcalloc", "xrealloc", "xrealloc of NULL", "xstrdup", "xfree(NULL)" }; w = nm[k]; CHECK(o.exit1() && !o.err.empty(), "%s should be a fatal error%s: it %s", w, k == 5 ? "" : " without memory", o.str().c_str());
}
static Target t1("faults", 1200, 40000, faults, false);
static Target t2("wrappers", 20000, 500000, wrappers);
static Target t3("refused", 1500, 10000, refused, false);
