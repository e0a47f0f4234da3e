#include "logm.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <syslog.h>
#include <sys/stat.h>
const char *PROPERTY = "C21", *LEVEL = "exploration";
const char *RULE = "A case is a program name (none, plain, or a path), pending standard output (buffered, or unwritable), standard error buffered or not, open log destinations, up to three warnings and then possibly a fatal error, an errno error (any error number) or an internal error, with messages of any length through several formats, run in a child whose standard output and error go to one file or to two; its output, its logs, the recorded syslog calls and the way it ends must be exactly as documented. "
	"Non-trivial: a log was open, standard output was pending, or the program name was a path.";
const char *ASSUMPTIONS = "the errno variant is given a routine name\nthe program name stays in place while it is set (it is not copied)\nroutine names are shorter than 150 bytes";
static void dump_syslog() { size_t at = 0; for (auto &r : vf.syslog) if (r.what == 'M' && at + r.s.size() + 40 < xfer_size) { at += sprintf(xfer + at, "%d %zu ", r.a, r.s.size()); memcpy(xfer + at, r.s.data(), r.s.size()); at += r.s.size(); } xfer[at] = 0; }
static void on_abort(int) { dump_syslog(); }
struct Ev { int kind; bool has; std::string r, m; int err; unsigned k; std::string s; long v; };
static void report(const Ev &e)
{
	const char *r = e.has ? e.r.c_str() : nullptr;
#define W(...) err_warning(r, __VA_ARGS__)
#define X(...) err_fatal(r, __VA_ARGS__)
#define N(...) do { errno = e.err; err_fatal_errno(r, __VA_ARGS__); } while (0)
#define I(...) err_internal(r, __VA_ARGS__)
	switch (e.kind) { case 0: WITH_FORMAT(e.k, e.s.c_str(), e.v, W); break; case 1: WITH_FORMAT(e.k, e.s.c_str(), e.v, X); break; case 2: WITH_FORMAT(e.k, e.s.c_str(), e.v, N); break; default: WITH_FORMAT(e.k, e.s.c_str(), e.v, I); }
}
static std::string slurp_file(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static void reports(Gen &g)
{
	reset_lib(); std::string dir = scratch_dir(), lf = dir + "/err.log", sf = dir + "/err.str"; unlink(lf.c_str()); unlink(sf.c_str());
	unsigned pk = g.draw(4); std::string prog = pk == 0 ? "" : pk == 1 ? std::string("prog") : pk == 2 ? std::string(g.pick(std::vector<const char *>{ "/usr/bin/prog", "./p", "a/b/", "/", "dir with blank/x y", "//x" })) : g.str(g.chance(1, 8) ? 400 : 20, "ab/ .%s"); bool hasprog = pk != 0;
	std::string shown = prog.substr(prog.rfind('/') == std::string::npos ? 0 : prog.rfind('/') + 1); if (prog.find('/') != std::string::npos) g.nontrivial();
	bool same = g.flip(); std::string pend = g.flip() ? g.str(40, "xyz\n") : ""; bool broken = g.chance(1, 6) && !same; unsigned sbuf = !same && g.chance(1, 3) ? 1 + g.draw(1) : 0; if (!pend.empty()) g.nontrivial();
	unsigned logs = g.draw(7); bool full = g.flip(); if (logs) { g.nontrivial(); g.label("logs open"); }
	std::vector<Ev> ev; unsigned nw = g.draw(3); int end = (int)g.draw(3);   // 0: only warnings
	for (unsigned i = 0; i < nw + (end ? 1 : 0); i++) {
		Ev e; e.kind = i < nw ? 0 : end; e.has = e.kind == 2 || g.chance(3, 4); e.r = g.chance(1, 6) ? g.str(140, "") : g.str(8, "fgh_(): "); for (auto &c : e.r) if (!c) c = '_';
		e.s = message(g); e.k = g.draw(5); e.v = (long)g.wide(20); e.m = format_result(e.k, e.s, e.v); e.err = g.pick(std::vector<int>{ ENOENT, 0, EINTR, EBADF, ENOSPC, 200, -1, EAGAIN, 1 + (int)g.draw(130) });
		ev.push_back(e); g.note("%s %s: message of %zu bytes", e.kind == 0 ? "warning" : e.kind == 1 ? "fatal" : e.kind == 2 ? "errno" : "internal", e.has ? printable(e.r).c_str() : "(no routine)", e.m.size());
	}
	if (ev.empty()) { Ev e; e.kind = 0; e.has = true; e.r = "r"; e.s = "m"; e.k = 0; e.v = 0; e.m = "m"; ev.push_back(e); }
	g.label(end == 0 ? "warning" : end == 1 ? "fatal" : end == 2 ? "errno" : "internal"); g.note("program %s, %zu bytes pending, logs %u%s", hasprog ? printable(prog).c_str() : "not set", pend.size(), logs, broken ? ", standard output broken" : ""); if (sbuf) { g.note("standard error buffered"); g.label("standard error buffered"); }
	xfer[0] = 0; int64_t T = 1600000000; 
	Outcome o = run_forked([&] {
		signal(SIGABRT, on_abort); atexit(dump_syslog); vf.clock = true; vf.real = T * 1000000;
		static char buf[4096]; setvbuf(stdout, buf, _IOFBF, sizeof buf); if (same) dup2(1, 2); static char ebuf[8192]; if (sbuf) setvbuf(stderr, ebuf, _IOFBF, sbuf == 1 ? sizeof ebuf : 64);
		err_set_program_name("something/else"); err_set_program_name(hasprog ? prog.c_str() : nullptr);
		const char *q = err_program_name(); CHECK(hasprog ? q && shown == q : !q, "the program name is %s after setting %s", printable(q).c_str(), hasprog ? printable(prog).c_str() : "NULL");
		if (logs & 1) log_file("id", lf.c_str()); if (logs & 2) log_stream("id", fopen(sf.c_str(), "w")); if (logs & 4) log_syslog("id"); log_option(full ? LOG_OPTION_FULL : LOG_OPTION_NO_FULL);
		if (broken) { int f = open("/dev/full", O_WRONLY); dup2(f, 1); }
		for (auto &e : ev) { fputs(pend.c_str(), stdout); report(e); }
		dump_syslog();
	});
	if (o.exited && (o.code == 77 || o.code == 78)) must_return(o, "reporting");
	if (end == 0) CHECK(o.returned, "a warning should return: it %s", o.str().c_str());
	else if (end == 3) CHECK(o.aborted(), "an internal error should abort: it %s", o.str().c_str());
	else CHECK(o.exit1(), "a fatal error should exit with status 1: it %s", o.str().c_str());
	std::string want; std::vector<Rec> recs; std::vector<std::string> sys;
	for (auto &e : ev) {
		std::string h = hasprog ? shown + (e.has ? " (" + e.r + "): " : ": ") : e.has ? e.r + ": " : "", t = e.m;
		if (e.kind == 3) h += "Internal error\n     ";
		std::string errline = e.r + ": " + strerror(e.err); if (e.kind == 2) t += " " + errline;
		if (same) want += pend;
		want += h + t + "\n"; if (e.kind == 3) want += hasprog ? "Aborting " + shown + "...\n" : "Aborting...\n";
		recs.push_back({ (time_t)T, e.has, e.r, e.m, { "id" }, full }); sys.push_back(e.m);
		if (e.kind == 2) { recs.push_back({ (time_t)T, e.has, e.r, errline, { "id" }, full }); sys.push_back(errline); }
	}
	const std::string &got = same ? o.out : o.err;
	size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
	CHECK(got == want, "standard error%s differs at byte %zu: got %zu bytes ...\"%s\", expected %zu bytes ...\"%s\"", same ? " (with standard output)" : "", d, got.size(), printable(got.substr(d > 20 ? d - 20 : 0, 120), 120).c_str(), want.size(), printable(want.substr(d > 20 ? d - 20 : 0, 120), 120).c_str());
	if (!same && !broken) { std::string p; for (size_t i = 0; i < ev.size(); i++) p += pend; CHECK(o.out == p, "standard output is \"%s\", expected \"%s\"", printable(o.out).c_str(), printable(p).c_str()); }
	// the child logs under its own process id: take it from the first record
	auto check_log = [&](const std::string &path, const char *what) {
		std::string s = slurp_file(path); pid_t pid = 0; if (full) { size_t b = s.find(" id["); if (b != std::string::npos) pid = atoi(s.c_str() + b + 4); }
		match_log(s, 0, recs, pid, what); };
	if (logs & 1) check_log(lf, "log file"); if (logs & 2) check_log(sf, "log stream");
	const char *q = xfer; size_t n = 0;
	while (*q) { char *e; int pri = (int)strtol(q, &e, 10); size_t len = strtoul(e, &e, 10); std::string m(e + 1, len); q = e + 1 + len; CHECK(n < sys.size() && (logs & 4), "syslog got the message \"%s\" too many", printable(m).c_str()); CHECK((pri & 7) == LOG_ERR && m == sys[n], "syslog got priority %d, \"%s\" (%zu bytes), expected an error, \"%s\" (%zu bytes)", pri, printable(m).c_str(), m.size(), printable(sys[n]).c_str(), sys[n].size()); n++; }
	if (logs & 4) CHECK(n == sys.size(), "syslog got %zu messages, expected %zu", n, sys.size());
}
static Target t1("reports", 16000, 200000, reports, false);
