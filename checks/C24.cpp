#include "ops.h"
#include <fcntl.h>
const char *PROPERTY = "C24", *LEVEL = "exploration";
const char *RULE = "A case is a program of up to 120 steps over hash tables, sets, lists, skip lists, argument lists, string and object heaps, stacks, string pools, timers, flags, the source manager, the log, the codes, allocation wrappers, child processes and concrete names, executed with address sanitizer and every allocation of the library accounted for. "
	"balance: the program runs between maa_init and maa_shutdown, all objects are destroyed in a random order, and no block may be left; then it runs again (possibly after another program) and must give the same results as the first time, again with nothing left. destroy: one object of a kind without shared storage is created, used and destroyed among others, and all that was allocated for it must be gone; for kinds with storage shared by the module, repeating the same work must not need more memory. User keys and data are compared with their original contents. farewell: what the shutdown prints under the debugging flags .memory and .time is compared with the strings, timers and the (virtual) time since the initialisation. Non-trivial: three or more modules were used, or an object was used at least 5 times.";
const char *ASSUMPTIONS = "lists and skip lists do not outlive the shutdown of the library\nthe log and the source manager are closed before the shutdown (their names live in the global pool)";
using namespace ops;
static const std::vector<unsigned> W = { 10, 10, 8, 6, 8, 6, 5, 4, 8, 8, 3, 4, 8, 3, 2, 2, 2, 0, 3 };
static std::string first_difference(const std::string &a, const std::string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = a.rfind('\n', i ? i - 1 : 0); s = s == std::string::npos ? 0 : s + 1; auto line = [&](const std::string &x) { return printable(s < x.size() ? x.substr(s, std::min(x.find('\n', s), s + 160) - s) : std::string("(end)"), 160); }; return "\"" + line(a) + "\" and then \"" + line(b) + "\""; }
static std::string cycle(const Program &p, unsigned seed, const char *which, bool lib_init, bool dbg)
{
	std::string t; Machine *m = new Machine; trace = &t; srandom(seed); srand(seed); vf.clock = true; vf.real = 1000000000000000; vf.self_u = vf.self_s = 0; m->logname = scratch_dir() + "/logs"; vf.syslog.clear();
	if (lib_init) { maa_init("/usr/bin/program"); obs_s("program", err_program_name()); char v[80]; snprintf(v, sizeof v, "%d.%d.%d", maa_version_major(), maa_version_minor(), maa_version_teeny()); CHECK(strstr(maa_version(), v), "maa_version is '%s', the numbers are %s", maa_version(), v); } 
	if (lib_init && dbg) { static const char *fl[] = { ".memory", ".time", ".pr", ".sl", ".src", ".parse" }; for (int i = 0; i < 6; i++) if (i < 2 || seed >> i & 1) dbg_set(fl[i]); }
	for (unsigned f = 0; f < 5; f++) { obs("flags %d %d", dbg_test(1ul << f), flg_test(1ul << f)); obs("builtin %d", dbg_test(3ul << 30 | 1ul << f)); }
	for (auto &q : p) { obs("%s", op_name[q.op]); m->step(q); }
	user_unchanged(); m->destroy_objects(seed); delete m; trace = nullptr;
	if (lib_init) maa_shutdown(); else { _pr_shutdown(); _prs_shutdown(); str_destroy(); _lst_shutdown(); _sl_shutdown(); _tim_shutdown(); flg_destroy(); dbg_destroy(); }
	err_set_program_name(nullptr); std::string o = log_get_facility() ? "" : "";
	CHECK(vf_live() == 0, "after %s, with all objects destroyed and the library shut down, %ld blocks (%ld bytes) are left:%s", which, vf_live(), vf_live_bytes(), vf_live_report().c_str());
	user_unchanged(); return t;
}
static void quiet_stderr() { static int null = open("/dev/null", O_WRONLY); fflush(stderr); dup2(null, 2); fflush(stdout); dup2(null, 1); }
static void balance(Gen &g)
{
	reset_lib(); make_user(); Program p = program(g, 120, W); bool init = g.chance(3, 4), other = g.flip(), dbg = g.chance(1, 8); unsigned seed = (unsigned)g.draw(1000); Program o; if (other) { g.note("then another program:"); o = program(g, 40, W); g.label("another program in between"); }
	std::set<int> mods; for (auto &q : p) mods.insert(q.op); if (mods.size() >= 3) g.nontrivial(); g.note(init ? "with maa_init" : "without maa_init");
	fflush(stdout); int save = dup(2), save1 = dup(1); quiet_stderr(); std::string err;
	struct Restore { int fd, fd1; ~Restore() { fflush(stderr); fflush(stdout); dup2(fd, 2); close(fd); dup2(fd1, 1); close(fd1); } } rs{ save, save1 };
	vf_track_start(); std::string a = cycle(p, seed, "the first cycle", init, dbg); if (other) cycle(o, seed + 1, "the other program", g.flip(), false); std::string b = cycle(p, seed, "the second cycle", init, dbg);
	CHECK(a == b, "the same program gives different results in a later cycle: %s", first_difference(a, b).c_str()); vf_track_stop();
}
static void destroys(Gen &g)
{
	static const int kinds[] = { HSH, SET, ARG, MS, MO, STK, POOL, LST, SL, SRC }; int k = kinds[g.draw(9)]; reset_lib(); make_user(); std::vector<unsigned> only(NOPS, 0); only[k] = 1; bool shared = k == LST || k == SL || k == SRC;
	vf_track_start(); Machine *m = new Machine; trace = nullptr; for (auto &q : program(g, 20, W, 0)) { if (q.op != k) m->step(q); } g.note("the object:"); if (k == SRC) str_find("a.c"), str_find("dir/b.h"), str_find("c");
	Program p = program(g, 40, only); if (p.size() >= 5) g.nontrivial(); g.label(op_name[k]); unsigned seed = (unsigned)g.draw(100);
	auto once = [&] { srandom(seed); Machine *n = new Machine; for (auto q : p) { if (k == SRC && q.a % 17 == 16) q.a--; n->step(q); user_unchanged(); } n->destroy_objects(seed); delete n; };
	if (shared) { once(); } long n0 = vf_live(), b0 = vf_live_bytes(); once(); long n1 = vf_live(), b1 = vf_live_bytes();
	CHECK(n1 == n0 && b1 == b0, "%s: after destroying it, %ld blocks of %ld bytes are allocated, before its creation%s it was %ld of %ld:%s", op_name[k], n1, b1, shared ? " (with room left from an earlier one)" : "", n0, b0, vf_live_report().c_str());
	m->destroy_objects(seed); delete m; vf_track_stop(); reset_lib();
}
static void processes(Gen &g)
{
	std::vector<unsigned> w = W; w[PR] = 30; Program p = program(g, 12, w); bool open = g.flip(), nochld = g.chance(1, 4); if (nochld) g.label("SIGCHLD ignored"); g.nontrivial(); reset_lib(); make_user();
	Outcome r = run_forked([&] { if (nochld) signal(SIGCHLD, SIG_IGN); vf_track_start(); std::string a = cycle(p, 1, "a cycle with processes", true, false); 
		if (open) { int i, o; maa_init("x"); pr_open("cat", PR_CREATE_STDIN | PR_CREATE_STDOUT, &i, &o, nullptr); maa_shutdown(); err_set_program_name(nullptr); CHECK(vf_live() == 0, "after a shutdown with a child running %ld blocks are left", vf_live()); CHECK(waitpid(-1, nullptr, WNOHANG) < 0, "a child survives the shutdown"); }
		std::string b = cycle(p, 1, "a second cycle with processes", true, false); CHECK(a == b, "the same program gives different results in a later cycle: %s", first_difference(a, b).c_str()); });
	must_return(r, "a program with child processes");
}
static void farewell(Gen &g)
{
	reset_lib(); vf.clock = true; vf.real = 1000000000000000ll + (int64_t)g.draw(1u << 30); vf.self_u = g.draw(3000000); vf.self_s = vf.child_u = vf.child_s = 0; g.nontrivial();
	bool memory = g.flip(), time = g.flip(), again = g.flip(), none = g.chance(1, 6); int strings = g.draw(20), timers = g.draw(3); bool byname = g.flip(); int64_t lap[4], total = 1 + g.wide(45), user = g.draw(5000000); for (auto &l : lap) l = g.draw(200000000);
	g.note("%s%s%s%s, %d strings, %d timers, %ld us", again ? "second cycle, " : "", memory ? ".memory " : "", time ? ".time" : "", none ? ", then none" : "", strings, timers, (long)total); if (memory) g.label("memory"); if (time) g.label("time");
	Outcome o = run_forked([&] {
		if (again) { maa_init("first"); dbg_set("+.time"); dbg_set("-.time"); str_find("left"); tim_start("old"); maa_shutdown(); }
		maa_init("/bin/second"); int64_t t0 = vf.real;
		if (memory) { if (byname) dbg_set(".memory"); else dbg_set_flag(MAA_MEMORY); } if (time) { if (byname) dbg_set("+.time"); else dbg_set_flag(MAA_TIME); } if (none) dbg_set("none");
		for (int i = 0; i < strings; i++) str_find(std::to_string(i).c_str());
		static const char *nm[] = { "one", "two", "three" }; for (int i = 0; i < timers; i++) { tim_start(nm[i]); vf.real += lap[i]; tim_stop(nm[i]); }
		vf.real = t0 + total; vf.self_u += user; maa_shutdown(); });
	CHECK(o.returned && o.out.empty(), "the shutdown: %s", o.str().c_str()); if (none) memory = time = false;
	std::string want; char b[200]; bool seen = o.err.find(maa_version()) != std::string::npos; CHECK(seen == (memory || time), "the shutdown %s the version: \"%s\"", seen ? "prints" : "does not print", printable(o.err, 300).c_str());
	if (!memory && !time) CHECK(o.err.empty(), "the shutdown prints \"%s\"", printable(o.err, 300).c_str());
	seen = o.err.find("string pool") != std::string::npos; CHECK(seen == memory, "the shutdown %s the statistics of the string pool: \"%s\"", seen ? "prints" : "does not print", printable(o.err, 300).c_str());
	auto line = [&](const char *n, int64_t r, int64_t u) { snprintf(b, sizeof b, "%-20s %0.3fr %0.3fu %0.3fs\n", n, r / 1e6, u / 1e6, 0.0); bool f = o.err.find(b) != std::string::npos, f2 = false; for (int d = -1; d <= 1 && !f; d += 2) { snprintf(b, sizeof b, "%-20s %0.3fr", n, r / 1e6 + d * 0.001); f2 |= o.err.find(b) != std::string::npos; } CHECK(f || f2 || !time, "the shutdown should print the timer %s with %.3f s, %.3f s: \"%s\"", n, r / 1e6, u / 1e6, printable(o.err, 500).c_str()); CHECK(time || o.err.find(n) == std::string::npos || memory, "the shutdown prints timers: \"%s\"", printable(o.err, 300).c_str()); };
	line("total", total, user); if (timers > 0) line("one", lap[0], 0); if (timers > 1) line("two", lap[1], 0); if (timers > 2) line("three", lap[2], 0); CHECK(o.err.find("old") == std::string::npos, "a timer of an earlier cycle is printed: \"%s\"", printable(o.err, 300).c_str());
	if (memory) { snprintf(b, sizeof b, "%d strings", strings); CHECK(o.err.find(b) != std::string::npos || strings < 1, "the pool's statistics should tell of %d strings: \"%s\"", strings, printable(o.err, 400).c_str()); }
}
static Target t4("farewell", 4000, 60000, farewell, false);
static Target t1("balance", 80000, 800000, balance, false);
static Target t2("destroy", 160000, 2000000, destroys, false);
static Target t3("processes", 3000, 20000, processes, false);
