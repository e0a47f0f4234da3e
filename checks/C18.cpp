#include "lib.h"
#include <math.h>
const char *PROPERTY = "C18", *LEVEL = "exploration";
const char *RULE = "A case is a history of starts, stops, resets, reads and reports of up to forty named timers (equal names at different addresses are one timer) while a virtual clock advances wall, user and system time of the process and of its children by independent amounts from 0 and 1 microsecond to years; after every step the values of all timers are compared with exact integer arithmetic to within a tenth of a microsecond (plus the precision of a double). "
	"unknown: any use of a timer never started must abort. Non-trivial: timers overlapped, or one was restarted or reset and stopped again.";
const char *ASSUMPTIONS = "time does not run backwards\nnames outlive the timers (they are not copied)\nthe times come from gettimeofday, time, clock_gettime, getrusage, times or clock, which the shim replaces";
struct T { bool known = false; int64_t r0 = 0, u0 = 0, s0 = 0, r = 0, u = 0, s = 0; int starts = 0, stops = 0; };
enum { MANY = 40 };
static char names[MANY][2][64];
static int64_t U() { return vf.self_u + vf.child_u; }
static int64_t S() { return vf.self_s + vf.child_s; }
static void near(double got, int64_t us, const char *what, const char *name) { double w = us / 1e6; CHECK(fabs(got - w) <= 1e-7 + fabs(w) * 1e-12, "the %s time of timer \"%s\" is %.9f, expected %.6f", what, name, got, w); }
static void check(T *t, int n) { for (int i = 0; i < n; i++) if (t[i].known) { const char *m = names[i][1]; near(tim_get_real(m), t[i].r, "real", m); near(tim_get_user(m), t[i].u, "user", m); near(tim_get_system(m), t[i].s, "system", m); } }
static std::string capture(const std::function<void(FILE *)> &f) { char *t = nullptr; size_t n = 0; FILE *s = open_memstream(&t, &n); f(s); fclose(s); std::string r(t, n); free(t); return r; }
static void check_line(const std::string &line, T &t, const char *name)
{
	char e[80]; snprintf(e, sizeof e, "%-20s ", name); size_t k = strlen(e); CHECK(line.compare(0, k, e) == 0, "the report of timer \"%s\" is \"%s\"", name, printable(line).c_str());
	double r, u, s; int end = 0; char c; int m = sscanf(line.c_str() + k, "%lfr %lfu %lfs%n%c", &r, &u, &s, &end, &c); CHECK(m == 3 && end == (int)(line.size() - k), "the report of timer \"%s\" is \"%s\"", name, printable(line).c_str());
	auto ok = [](double p, int64_t us) { return fabs(p - us / 1e6) <= 0.000500001 + fabs(us / 1e6) * 1e-12; };
	CHECK(ok(r, t.r) && ok(u, t.u) && ok(s, t.s), "the report \"%s\" should show %.6f %.6f %.6f", printable(line).c_str(), t.r / 1e6, t.u / 1e6, t.s / 1e6);
	size_t dots = 0; for (size_t i = k; i < line.size(); i++) if (line[i] == '.') { dots++; CHECK(i + 4 < line.size() && isdigit(line[i + 3]) && !isdigit(line[i + 4]), "the report \"%s\" does not show milliseconds", printable(line).c_str()); } CHECK(dots == 3, "the report \"%s\" does not show milliseconds", printable(line).c_str());
}
static int64_t amount(Gen &g) { switch (g.draw(6)) { case 0: return 0; case 1: return 1; case 2: return g.draw(2000); case 3: return 999999 + g.draw(2); case 4: return g.draw(5000000); case 5: return 1000000 * (int64_t)g.draw(100000); default: return (int64_t)g.draw(1ull << 45); } }
static void setup(Gen &g, int n)
{
	reset_lib(); static const char *base[] = { "total", "a", "b", "tot", "a name longer than twenty characters", "x" };
	std::set<std::string> used; bool any = g.chance(1, 3);
	for (int i = 0; i < std::max(n, 6); i++) { std::string s = i < 6 && !any ? base[i] : any ? "n" + g.str(g.chance(1, 8) ? 60 : 24, "ab.%_") : "t" + std::to_string(i); while (!used.insert(s).second) s = "d" + std::to_string(used.size()) + s.substr(0, 40); for (int j = 0; j < 2; j++) strcpy(names[i][j], s.c_str()); }
	vf.clock = true; vf.real = 1000000000000000ll + (int64_t)g.draw(1ull << 48); vf.self_u = g.draw(3000000); vf.self_s = g.draw(3000000); vf.child_u = g.draw(3000000); vf.child_s = g.draw(3000000); (void)n;
}
static void history(Gen &g)
{
	int n = g.chance(1, 20) ? 6 + (int)g.draw(MANY - 6) : 1 + g.draw(5); setup(g, n); T t[MANY]; if (n > 6) g.label("many timers"); int running = 0;
	for (Loop l(g, 100, 1); l.more();) {
		int i = g.draw(n - 1); const char *nm = names[i][g.draw(1)]; T &x = t[i];
		switch (g.weighted({ 6, 6, 8, 2, 1, 1 })) {
		case 0: g.note("start %s", nm); tim_start(nm); if (x.starts && x.stops) { g.nontrivial(); g.label("restarted"); } x.known = true; x.starts++; x.r0 = vf.real; x.u0 = U(); x.s0 = S(); running++; break;
		case 1: if (!x.known) break; tim_stop(nm); x.r = vf.real - x.r0; x.u = U() - x.u0; x.s = S() - x.s0; x.stops++; g.note("stop %s after %.6f %.6f %.6f", nm, x.r / 1e6, x.u / 1e6, x.s / 1e6); { int k = 0; for (auto &y : t) k += y.known && y.starts > y.stops; if (k) g.nontrivial(); } if (vf.child_u) g.label("children"); break;
		case 2: { vf.real += amount(g); if (g.flip()) vf.self_u += amount(g); if (g.flip()) vf.self_s += amount(g); if (g.flip()) vf.child_u += amount(g); if (g.flip()) vf.child_s += amount(g); break; }
		case 3: if (!x.known) break; g.note("reset %s", nm); tim_reset(nm); x.r = x.u = x.s = 0; if (x.stops) g.nontrivial(); break;
		case 4: if (x.known) { std::string s = capture([&](FILE *f) { tim_print_timer(f, nm); }); CHECK(!s.empty() && s.back() == '\n', "the report of \"%s\" is \"%s\"", nm, printable(s).c_str()); s.pop_back(); check_line(s, x, nm); } break;
		default: { std::string s = capture([&](FILE *f) { tim_print_timers(f); }); int lines = 0, known = 0; for (int k = 0; k < n; k++) known += t[k].known; std::set<int> seen;
			size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); CHECK(e != std::string::npos, "the report lacks its last newline"); std::string ln = s.substr(p, e - p); p = e + 1; lines++; bool hit = false; for (int k = 0; k < n; k++) if (t[k].known) { char h[80]; snprintf(h, sizeof h, "%-20s ", names[k][0]); if (ln.compare(0, strlen(h), h) == 0) { hit = true; CHECK(seen.insert(k).second, "timer \"%s\" is reported twice", names[k][0]); check_line(ln, t[k], names[k][0]); } } CHECK(hit, "the report has the line \"%s\"", printable(ln).c_str()); }
			CHECK(lines == known, "the report has %d lines for %d timers", lines, known); } }
		check(t, n);
	}
	if (g.chance(1, 4)) { _tim_shutdown(); std::string s = capture([&](FILE *f) { tim_print_timers(f); }); CHECK(s.empty(), "timers survive a shutdown: %s", printable(s).c_str()); tim_start("a"); near(tim_get_real("a"), 0, "real", "a"); }
}
static void unknown(Gen &g)
{
	setup(g, 6); bool some = g.flip(); if (some) { tim_start("total"); tim_start("a"); } if (g.chance(1, 4)) { _tim_shutdown(); }
	unsigned k = g.draw(5); const char *nm = some && g.flip() ? "tot" : "never"; g.note("use %u of the unknown timer %s", k, nm); g.nontrivial();
	Outcome o = run_forked([&] { switch (k) { case 0: tim_stop(nm); break; case 1: tim_reset(nm); break; case 2: tim_get_real(nm); break; case 3: tim_get_user(nm); break; case 4: tim_get_system(nm); break; default: tim_print_timer(stderr, nm); } });
	CHECK(o.aborted() && o.err.find(nm) != std::string::npos, "using a timer that was never started should abort and name it: it %s", o.str().c_str());
}
static Target t1("history", 450000, 8000000, history);
static Target t2("unknown", 2000, 20000, unknown, false);
