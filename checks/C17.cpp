#include "lib.h"
const char *PROPERTY = "C17", *LEVEL = "exploration";
const char *RULE = "A case is a history on the debug and the feature registry together: registrations of distinct names for arbitrary single flags of the four sets, setting and clearing by name (plain, +name, -name, none, all, names that contain or extend others) and by flag, destruction; after every step all 120 flags of both registries are tested (registered or not) against a model, and the listings and names are compared at random points. "
	"refused: malformed flags, flags and reserved flags registered again, unknown, empty and signed special names, and NULL must end as documented, and unknown names must list every registered name. Non-trivial: flags of two or more sets, or both registries, were in use.";
const char *ASSUMPTIONS = "names are distinct, are not none or all, and outlive the registry (they are not copied)\nflags are 32-bit values\nlistings and names are asked for only when something is registered";
typedef unsigned long F;
struct Reg {
	bool dbg; const char *what; std::map<F, std::string> reg; std::set<F> set;
	void do_register(F f, const char *n) { if (!dbg) flg_register(f, n); else if ((f >> 30) == 3) _dbg_register(f, n); else dbg_register(f, n); }
	void do_set(const char *n) { if (dbg) dbg_set(n); else flg_set(n); }
	int test(F f) { return dbg ? dbg_test(f) : flg_test(f); }
	void list(FILE *f) { if (dbg) dbg_list(f); else flg_list(f); }
	void destroy() { if (dbg) dbg_destroy(); else flg_destroy(); reg.clear(); set.clear(); }
};
static std::vector<F> all_flags() { std::vector<F> v; for (F s = 0; s < 4; s++) for (int b = 0; b < 30; b++) v.push_back(s << 30 | 1ul << b); return v; }
static void check(Reg &r)
{
	for (F f : all_flags()) { int t = r.test(f); bool w = r.set.count(f); CHECK(!!t == w, "%s flag %lx tests as %d, but it is %sset", r.what, f, t, w ? "" : "not "); }
}
static std::multiset<std::string> listing(const std::string &s) { std::multiset<std::string> r; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); r.insert(s.substr(i, e - i)); i = e + 1; } return r; }
static void check_list(Reg &r)
{
	if (r.reg.empty()) return;
	char *t = nullptr; size_t n = 0; FILE *f = open_memstream(&t, &n); r.list(f); fclose(f); std::string s(t, n); free(t);
	std::multiset<std::string> w; for (auto &x : r.reg) w.insert("  " + x.second + (r.dbg && (x.first >> 30) == 3 ? " (builtin)" : ""));
	CHECK(listing(s) == w, "the listing of the %s registry is \"%s\"", r.what, printable(s, 300).c_str());
	if (!r.dbg) for (auto &x : r.reg) { const char *q = flg_name(x.first); CHECK(q && x.second == q, "flg_name(%lx) is \"%s\", expected \"%s\"", x.first, printable(q).c_str(), x.second.c_str()); }
}
static std::vector<char *> keep;
static const char *own(const std::string &s) { keep.push_back(strdup(s.c_str())); return keep.back(); }
static std::string fresh_name(Gen &g, Reg &r, F f)
{
	static const char *base[] = { "a", "b", "aa", "ab", "non", "none1", "al", "alls", "x", "", "verbose" };
	for (;;) {
		std::string s = g.flip() ? std::string(base[g.draw(10)]) : g.str(6, "abc-+ ."); if (g.chance(1, 16)) s = g.str(g.flip() ? 40 : 300, "abc-+ ."); if (g.chance(1, 12)) s = "f" + std::to_string(f);
		bool used = s == "none" || s == "all"; for (auto &x : r.reg) used |= x.second == s; if (!used) return s;
		s = "f" + std::to_string(f); used = false; for (auto &x : r.reg) used |= x.second == s; if (!used) return s;
	}
}
static F some_flag(Gen &g) { return (F)g.draw(3) << 30 | 1ul << g.pick(std::vector<int>{ (int)g.draw(29), 0, 29, 28, 1 }); }
static void setup(Reg &r, Gen &g, unsigned n) { while (n--) { F f = some_flag(g); if (r.reg.count(f)) continue; std::string s = fresh_name(g, r, f); r.do_register(f, own(s)); r.reg[f] = s; } }
// what a name means: sets on (1), off (-1), unknown (0)
static int meaning(Reg &r, const std::string &s, F *f)
{
	for (auto &x : r.reg) if (x.second == s) { *f = x.first; return 1; }
	if (!s.empty() && (s[0] == '-' || s[0] == '+')) for (auto &x : r.reg) if (x.second == s.substr(1)) { *f = x.first; return s[0] == '+' ? 1 : -1; }
	return 0;
}
static void history(Gen &g)
{
	reset_lib(); for (auto p : keep) free(p); keep.clear();
	Reg rr[2] = { { true, "debug", {}, {} }, { false, "feature", {}, {} } };
	for (Loop l(g, 100, 1); l.more();) {
		Reg &r = rr[g.draw(1)];
		switch (g.weighted({ 6, 12, 3, 1, 1, 1, 1 })) {
		case 0: { F f = some_flag(g); if (r.reg.count(f)) break; std::string s = fresh_name(g, r, f); g.note("%s register %lx \"%s\"", r.what, f, s.c_str()); const char *o = own(s); r.do_register(f, o); r.reg[f] = s; break; }
		case 1: { // by name
			if (r.reg.empty()) break; auto i = r.reg.begin(); std::advance(i, g.draw(r.reg.size() - 1));
			std::string s = std::string(g.pick(std::vector<const char *>{ "", "-", "+", "--", "+-" })) + i->second; F f = 0; int m = meaning(r, s, &f); if (!m || s == "none" || s == "all") break;
			g.note("%s set \"%s\" (%lx)", r.what, s.c_str(), f); r.do_set(s.c_str()); if (m > 0) r.set.insert(f); else r.set.erase(f); break; }
		case 2: if (r.dbg) { F f = some_flag(g); bool on = g.flip(); g.note("debug flag %lx %s", f, on ? "on" : "off"); if (on) dbg_set_flag(f), r.set.insert(f); else dbg_unset_flag(f), r.set.erase(f); } break;
		case 3: if (!r.reg.empty()) { g.note("%s none", r.what); r.do_set("none"); r.set.clear(); } break;
		case 4: if (!r.reg.empty()) { g.note("%s all", r.what); g.label("all"); r.do_set("all"); for (F f : all_flags()) r.set.insert(f); } break;
		case 5: check_list(r); break;
		default: if (g.chance(1, 4)) { g.note("%s destroy", r.what); g.label("destroyed"); r.destroy(); } }
		check(rr[0]); check(rr[1]);
		std::set<F> sets; for (auto &q : rr) for (auto &x : q.reg) sets.insert(x.first >> 30); if (sets.size() > 1 || (!rr[0].reg.empty() && !rr[1].reg.empty())) g.nontrivial();
	}
	check_list(rr[0]); check_list(rr[1]);
}
static void refused(Gen &g)
{
	reset_lib(); for (auto p : keep) free(p); keep.clear();
	Reg r = { (bool)g.draw(1), "", {}, {} }; r.what = r.dbg ? "debug" : "feature"; setup(r, g, g.draw(12)); g.nontrivial();
	unsigned k = g.draw(4); std::string want; std::function<void()> f; bool abrt = false; bool lists = false; char d[200];
	switch (k) {
	case 0: { F v = (F)g.draw(3) << 30; unsigned bits = g.draw(3) == 0 ? 0 : 2 + g.draw(2); std::set<int> b; while (b.size() < bits) b.insert((int)((g.draw(29) + b.size()) % 30)); for (int x : b) v |= 1ul << x; if (g.chance(1, 6)) v |= 0x3fffffff;
		snprintf(d, sizeof d, "registering the malformed %s flag %lx", r.what, v); f = [&r, v] { r.do_register(v, "odd"); }; break; }
	case 1: { if (r.reg.empty()) return; auto i = r.reg.begin(); std::advance(i, g.draw(r.reg.size() - 1)); F v = i->first; if (g.flip()) r.do_set(g.flip() ? "none" : "all"); snprintf(d, sizeof d, "registering the %s flag %lx again", r.what, v); want = i->second; f = [&r, v] { r.do_register(v, "again"); }; break; }
	case 2: { r.dbg = true; F v = 3ul << 30 | 1ul << g.draw(29); snprintf(d, sizeof d, "registering the reserved debug flag %lx", v); f = [v] { dbg_register(v, "mine"); }; break; }
	case 3: { std::string s; F dummy; unsigned tries = 0;
		do { s = g.flip() ? std::string(g.pick(std::vector<const char *>{ "", "+", "-", "+none", "-none", "-all", "+all", "ALL", "None", "none ", " all" })) : g.str(5, "abc-+"); if (!r.reg.empty() && g.flip()) { auto i = r.reg.begin(); std::advance(i, g.draw(r.reg.size() - 1)); s = g.flip() ? i->second + "x" : "x" + i->second; } } while ((meaning(r, s, &dummy) || s == "none" || s == "all") && tries++ < 20);
		if (tries > 20) return; if (r.reg.empty() && g.flip()) s = g.flip() ? "none" : "all";
		snprintf(d, sizeof d, "setting the %s flag \"%s\"", r.what, s.c_str()); lists = !r.reg.empty(); f = [&r, s] { r.do_set(s.c_str()); }; break; }
	default: snprintf(d, sizeof d, "setting the %s flag NULL", r.what); abrt = true; f = [&r] { r.do_set(nullptr); }; }
	g.note("%s", d); Outcome o = run_forked(f);
	if (abrt) CHECK(o.aborted() && !o.err.empty(), "%s should abort: it %s", d, o.str().c_str());
	else CHECK(o.exit1() && !o.err.empty(), "%s should be a fatal error: it %s", d, o.str().c_str());
	if (lists) { auto ls = listing(o.err); for (auto &x : r.reg) CHECK(ls.count("  " + x.second) || ls.count("  " + x.second + " (builtin)"), "%s does not list the valid name \"%s\": %s", d, x.second.c_str(), printable(o.err, 300).c_str()); }
	if (!want.empty()) CHECK(o.err.find("\"" + want + "\"") != std::string::npos, "%s does not name its owner \"%s\": %s", d, want.c_str(), printable(o.err, 200).c_str());
}
static Target t1("history", 100000, 5000000, history);
static Target t2("refused", 4000, 60000, refused, false);
