#include "logm.h"
#include <algorithm>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <syslog.h>
const char *PROPERTY = "C22", *LEVEL = "exploration";
const char *RULE = "A case is a history of opening and closing the file, stream and syslog destinations (repeatedly, with different identities, names, modes and facilities), option changes, clock steps, messages of all lengths and formats through the four logging functions, injected interrupted writes, other processes that append to or empty the files, and a user that moves in the stream; the files are looked into also while open; file names contain time conversions, also in directory parts that do not exist, and some files exist before. The file system below a scratch directory, the user's stream and the recorded calls to syslog must then hold exactly the expected records. "
	"standard: the same with standard output or error as the stream. refused: opening an open destination aborts, unknown facilities are fatal errors. unopenable: so is a log file that cannot be opened (a directory, below a regular file, too long a name, a dangling link, no name), at once or on the day it comes to be so. Non-trivial: two destinations were open at once, or a file name changed, or a write was interrupted.";
const char *ASSUMPTIONS = "identities are shorter than 150 bytes, routine names than 3000\nwhen file and stream are open with different identities either may be shown\nwrites to regular files are not partial";

static const std::map<std::string, int> fac = { { "auth", LOG_AUTH }, { "authpriv", LOG_AUTHPRIV }, { "cron", LOG_CRON }, { "daemon", LOG_DAEMON }, { "ftp", LOG_FTP }, { "lpr", LOG_LPR }, { "mail", LOG_MAIL }, { "news", LOG_NEWS }, { "syslog", LOG_SYSLOG }, { "user", LOG_USER }, { "uucp", LOG_UUCP }, { "local0", LOG_LOCAL0 }, { "local1", LOG_LOCAL1 }, { "local2", LOG_LOCAL2 }, { "local3", LOG_LOCAL3 }, { "local4", LOG_LOCAL4 }, { "local5", LOG_LOCAL5 }, { "local6", LOG_LOCAL6 }, { "local7", LOG_LOCAL7 } };
static int intr_left, intr_seen;
static ssize_t eintr_write(int fd, const void *b, size_t n) { if (intr_left > 0) { intr_left--; intr_seen++; errno = EINTR; return -1; } return write(fd, b, n); }
static std::string read_file(const std::string &p) { std::string s; int f = open(p.c_str(), O_RDONLY); if (f < 0) return s; char b[65536]; ssize_t k; while ((k = read(f, b, sizeof b)) > 0) s.append(b, k); close(f); return s; }
static void walk(const std::string &d, std::set<std::string> &files) { DIR *h = opendir(d.c_str()); if (!h) return; while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string p = d + "/" + n; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) walk(p, files); else files.insert(p); } closedir(h); }
static void wipe(const std::string &d) { if (d.find("/vf-") == std::string::npos && d.find("scratch") == std::string::npos && d.find(scratch_dir()) != 0) return; DIR *h = opendir(d.c_str()); if (!h) return; while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string p = d + "/" + n; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); } closedir(h); }
static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }

static void via_info_va(const char *f, ...) { va_list ap; va_start(ap, f); log_info_va(f, ap); va_end(ap); }
static void via_error_va(const char *r, const char *f, ...) { va_list ap; va_start(ap, f); log_error_va(r, f, ap); va_end(ap); }
static void send(unsigned how, const char *routine, unsigned k, const char *s, long v)
{
#define C0(...) log_info(__VA_ARGS__)
#define C1(...) via_info_va(__VA_ARGS__)
#define C2(...) log_error(routine, __VA_ARGS__)
#define C3(...) via_error_va(routine, __VA_ARGS__)
	switch (how) { case 0: WITH_FORMAT(k, s, v, C0); break; case 1: WITH_FORMAT(k, s, v, C1); break; case 2: WITH_FORMAT(k, s, v, C2); break; default: WITH_FORMAT(k, s, v, C3); }
}
// Names whose expansion is much longer than the name.
static std::string long_name(Gen &g)
{
	static const char *part[] = { "%c/", "%A-%B-%c-%F/", "%0200S/", "%0150H%M/" };
	std::string p = part[g.draw(3)], s; size_t each = p[1] == '0' ? 210 : p[1] == 'c' ? 25 : 60, n = g.range(1, 3200 / each); for (size_t i = 0; i < n; i++) s += p; g.label("long file name");
	return s + "log.%S";
}
static const char *names[] = { "log", "log.%S", "log.%M%S", "%H/log.%M", "d/e/log.%S", "%Y/%m/%d/log.%H%M%S", "a%%b", "%S/%S/x", "log-%j-%A" };
static const char *ids[] = { "prog", "p", "a much longer program identity, with blanks and %s in it", "" };
static std::string some_id(Gen &g) { return g.chance(1, 4) ? g.str(g.chance(1, 4) ? 140 : 40, "abz %s.-") : std::string(ids[g.draw(3)]); }
struct Str { FILE *f = nullptr; std::string path, before; std::vector<Rec> v; std::string id; };

static void history(Gen &g, bool standard)
{
	reset_lib(); std::string dir = scratch_dir() + "/log"; wipe(dir); mkdir(dir.c_str(), 0755);
	vf.clock = true; vf.real = (1600000000ll + (int64_t)g.draw(100000000)) * 1000000; vf.write_hook = eintr_write; intr_left = intr_seen = 0;
	static const char *zones[] = { "UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "XXX-13:45", "NFT+11", "AEST-10AEDT,M10.1.0,M4.1.0/3" }; const char *tz = zones[g.draw(5)]; struct Zone { Zone(const char *z) { setenv("TZ", z, 1); tzset(); } ~Zone() { setenv("TZ", "UTC", 1); tzset(); } } zone(tz); g.note("time zone %s", tz);
	int fds0 = open_fds(); pid_t pid = getpid();
	std::map<std::string, std::string> before; std::map<std::string, std::vector<Rec>> files;
	std::vector<Str> streams; std::vector<LogRec> sys; std::map<std::string, std::string> own; std::vector<char *> heap;
	auto str = [&](const std::string &s) { heap.push_back(strdup(s.c_str())); return (const char *)heap.back(); };
	bool fopen_ = false, sopen = false, yopen = false, full = true; std::string fname, fid, latest, facility = log_get_facility() ? log_get_facility() : "?"; int sysfac = 0; std::string std_expect; FILE *stdf = nullptr;
	auto expand = [&] { time_t t = vf.real / 1000000; struct tm *tm = localtime(&t); char b[4096]; size_t n = strftime(b, sizeof b, fname.c_str(), tm); return std::string(b, n); };
	auto touch = [&](const std::string &p) { if (!files.count(p)) files[p]; };
	std::string cur; int switches = 0, seq = 0;
	for (Loop l(g, 60, 1); l.more();) {
		switch (g.weighted({ 14, 3, 3, 2, 2, 2, 4, 1, 1, 2, 2, 2 })) {
		case 0: { // a message
			unsigned how = g.draw(3), k = g.draw(5); std::string s = message(g); if (g.flip()) s = std::to_string(++seq) + " " + s; long v = (long)g.wide(20); bool err = how >= 2; bool has = err && g.flip(); std::string r = g.chance(1, 10) ? g.str(140, "") : g.str(6, "fgh_"); if (g.chance(1, 40)) r.append(100 + g.draw(2800), 'R'); for (auto &c : r) if (!c) c = '_';
			if (g.chance(1, 5)) { intr_left = 1 + g.draw(4); } int intr = intr_left;
			std::string m = format_result(k, s, v); g.note("message of %zu bytes%s%s", m.size(), has ? " from " : "", has ? printable(r).c_str() : "");
			pid_t by = 0; bool forked = !yopen && !standard && g.mode != Gen::BYTES && (fopen_ || sopen) && (!fopen_ || expand() == cur) && g.chance(1, 12);
			if (forked) { g.note("  from a child"); g.label("logged by a forked child"); by = fork(); if (!by) { send(how, has ? r.c_str() : nullptr, k, s.c_str(), v); _exit(0); } CHECK(by > 0, "harness: fork"); int st; while (waitpid(by, &st, 0) < 0 && errno == EINTR); CHECK(!st, "a child that logged ended with status 0x%x", st); }
			else send(how, has ? r.c_str() : nullptr, k, s.c_str(), v); intr_left = 0;
			if (intr && fopen_) { g.nontrivial(); g.label("interrupted write"); }
			Rec rec{ (time_t)(vf.real / 1000000), has, r, m, { latest }, full, by };
			if (fopen_) { std::string p = expand(); if (p != cur) { g.nontrivial(); g.label("file name changed"); switches++; cur = p; touch(p); } Rec q = rec; q.idents.insert(fid); files[p].push_back(q); }
			if (sopen) { if (stdf) { std_expect = m; fflush(stdf); xfer[0] = 0; } else { Rec q = rec; q.idents.insert(streams.back().id); streams.back().v.push_back(q); } }
			if (yopen) sys.push_back({ 'M', err ? LOG_ERR : LOG_INFO, sysfac, m });
			if (fopen_ + sopen + yopen > 1) g.nontrivial(); if (fopen_ && sopen && yopen) g.label("three destinations"); if (!(fopen_ + sopen + yopen)) g.label("none open");
			if (stdf) { // bare message, newline added by no one: end it for the comparison
				fputc('\n', stdf); fflush(stdf); streams.back().before += "."; streams.back().v.push_back(rec); }
			break; }
		case 1: // file
			if (fopen_) { g.note("close file"); log_file(nullptr, nullptr); fopen_ = false; break; }
			fname = dir + "/" + (g.chance(1, 12) ? long_name(g) : std::string(names[g.draw(8)])); fid = some_id(g); latest = fid; cur = expand(); g.note("file %s, ident %s", fname.c_str() + dir.size() + 1, fid.c_str());
			if (g.chance(1, 3) && !files.count(cur) && !before.count(cur)) { std::string d = cur.substr(0, cur.rfind('/')); if (d == dir || g.flip()) { for (size_t i = dir.size(); (i = d.find('/', i + 1)) != std::string::npos;) mkdir(d.substr(0, i).c_str(), 0755); mkdir(d.c_str(), 0755); FILE *f = fopen(cur.c_str(), "w"); CHECK(f, "harness: cannot create %s", cur.c_str()); fputs("earlier line\n", f); fclose(f); before[cur] = "earlier line\n"; g.label("appended to an existing file"); } }
			log_file(str(fid), str(fname)); fopen_ = true; touch(cur); break;
		case 2: // stream
			if (sopen) { g.note("close stream"); log_stream(nullptr, nullptr); sopen = false; break; }
			latest = some_id(g);
			if (standard) { stdf = g.flip() ? stdout : stderr; Str s; s.id = latest; s.f = stdf; s.path = stdf == stdout ? "1" : "2"; streams.push_back(s); log_stream(str(latest), stdf); }
			else { Str s; s.id = latest; s.path = dir + "/stream" + std::to_string(streams.size()); unsigned mode = g.draw(3); if (mode >= 2) { s.before = "old contents\n"; FILE *f = fopen(s.path.c_str(), "w"); fputs(s.before.c_str(), f); fclose(f); } s.f = fopen(s.path.c_str(), mode == 0 ? "w" : mode == 1 ? "w+" : mode == 2 ? "a" : "r+"); CHECK(s.f, "harness: fopen"); streams.push_back(s); g.note("stream, mode %u, ident %s", mode, latest.c_str()); log_stream(str(latest), s.f); }
			sopen = true; break;
		case 3: // syslog
			if (yopen) { g.note("close syslog"); log_syslog(nullptr); yopen = false; sys.push_back({ 'C', 0, 0, "" }); break; }
			{ std::string i = some_id(g); g.note("syslog as %s, facility %s", i.c_str(), facility.c_str()); log_syslog(str(i)); yopen = true; sysfac = fac.count(facility) ? fac.at(facility) : 0; sys.push_back({ 'O', 0, sysfac, i }); } break;
		case 4: { auto i = fac.begin(); std::advance(i, g.draw(fac.size() - 1)); g.note("facility %s", i->first.c_str()); log_set_facility(i->first.c_str()); facility = i->first; const char *q = log_get_facility(); CHECK(q && facility == q, "the facility is %s after setting %s", printable(q).c_str(), facility.c_str()); break; }
		case 5: full = !full; g.note(full ? "full" : "not full"); log_option(full ? LOG_OPTION_FULL : LOG_OPTION_NO_FULL); break;
		case 6: { static const long d[] = { 1, 1, 60, 3600, 86400, 40 * 86400, 59, 400 * 86400 }; long k = d[g.draw(7)]; g.note("clock + %ld", k); vf.real += k * 1000000ll; break; }
		case 7: g.note("close all"); log_close(); if (yopen) sys.push_back({ 'C', 0, 0, "" }); fopen_ = sopen = yopen = false; break;
		case 8: { // others use the file too
			if (!fopen_ || expand() != cur) break; int f = open(cur.c_str(), O_WRONLY | O_APPEND); CHECK(f >= 0, "the log file %s does not exist", cur.c_str() + dir.size());
			if (g.chance(1, 3)) { g.note("another process empties the file"); g.label("file emptied by another"); CHECK(!ftruncate(f, 0), "harness: ftruncate"); files[cur].clear(); before.erase(cur); before[cur] = ""; }
			else { std::string w = "somebody else " + std::to_string(++seq); g.note("another process appends to the file"); g.label("file appended to by another"); std::string l = w + "\n"; CHECK(write(f, l.data(), l.size()) == (ssize_t)l.size(), "harness: write"); files[cur].push_back(Rec{ 0, false, "", w, {}, false, 0 }); }
			close(f); break; }
		case 9: { // and the stream
			if (!sopen || stdf || standard) break; Str &s = streams.back();
			if (g.flip()) { g.note("the user moves in the stream"); g.label("stream moved by the user"); fseek(s.f, g.flip() ? 0 : (long)g.draw(30), SEEK_SET); }
			else { g.note("another process appends to the stream's file"); g.label("stream's file appended to by another"); std::string w = "somebody else " + std::to_string(++seq), l = w + "\n"; int f = open(s.path.c_str(), O_WRONLY | O_APPEND); CHECK(f >= 0 && write(f, l.data(), l.size()) == (ssize_t)l.size(), "harness: write"); close(f); s.v.push_back(Rec{ 0, false, "", w, {}, false, 0 }); }
			break; }
		case 10: // what has been logged is there already
			if (standard) break;
			g.label("looked into while open"); if (fopen_ && files.count(cur)) { std::string s = read_file(cur), b = before.count(cur) ? before[cur] : ""; CHECK(s.compare(0, b.size(), b) == 0, "the earlier contents of the log file are gone"); match_log(s, b.size(), files[cur], pid, "log file, while open,"); }
			if (sopen) { Str &s = streams.back(); std::string t = read_file(s.path); CHECK(t.compare(0, s.before.size(), s.before) == 0, "the earlier contents of the stream are gone: \"%s\"", printable(t).c_str()); match_log(t, s.before.size(), s.v, pid, "stream, while open,"); }
			break;
		default: // closing what is closed does nothing
			if (!fopen_) log_file(g.flip() ? "x" : nullptr, nullptr); if (!sopen) log_stream(nullptr, nullptr); if (!yopen) log_syslog(nullptr); }
		if (!sopen) stdf = nullptr;
		if (g.chance(1, 10)) for (auto p : heap) memset(p, 'Z', 1);   // identities and names are copied
	}
	log_close(); if (yopen) sys.push_back({ 'C', 0, 0, "" });
	for (auto p : heap) free(p);
	int fds1 = open_fds(); CHECK(fds1 == fds0, "%d descriptors are open after closing all destinations, %d before", fds1, fds0);
	std::set<std::string> found; walk(dir, found);
	for (auto &f : files) { CHECK(found.count(f.first), "the log file %s was not created", f.first.c_str() + dir.size()); found.erase(f.first); if (!before.count(f.first)) { struct stat st; CHECK(!stat(f.first.c_str(), &st) && (st.st_mode & 07777) == 0644, "the log file was created with mode %o, expected 644", st.st_mode & 07777); } std::string s = read_file(f.first), b = before.count(f.first) ? before[f.first] : ""; CHECK(s.compare(0, b.size(), b) == 0, "the earlier contents of the log file are gone"); match_log(s, b.size(), f.second, pid, ("log file " + f.first.substr(dir.size() + 1)).c_str()); }
	if (!standard) for (auto &s : streams) { found.erase(s.path); std::string t = read_file(s.path); CHECK(t.compare(0, s.before.size(), s.before) == 0, "the earlier contents of the stream are gone: \"%s\"", printable(t).c_str()); match_log(t, s.before.size(), s.v, pid, "stream"); }
	else { std::string e; for (auto &s : streams) for (auto &r : s.v) { CHECK(e.size() + r.msg.size() + 4 < xfer_size, "harness: too much"); e += s.path + std::to_string(r.msg.size()) + ":" + r.msg + "\n"; } memcpy(xfer, e.data(), e.size()); xfer[e.size()] = 0; }
	for (auto &f : before) found.erase(f.first);
	CHECK(found.empty(), "there is an unexpected file %s", found.begin()->c_str() + dir.size());
	auto &y = vf.syslog; CHECK(y.size() == sys.size(), "syslog got %zu calls, expected %zu", y.size(), sys.size());
	for (size_t i = 0; i < y.size(); i++) {
		CHECK(y[i].what == sys[i].what, "call %zu to syslog is %c, expected %c", i + 1, y[i].what, sys[i].what);
		if (y[i].what == 'O') CHECK(y[i].a & LOG_PID, "syslog was opened without the option for the process id");
		if (y[i].what == 'O') CHECK(y[i].b == sys[i].b && y[i].s == sys[i].s, "syslog was opened as \"%s\" with facility %d, expected \"%s\", %d", printable(y[i].s).c_str(), y[i].b, printable(sys[i].s).c_str(), sys[i].b);
		if (y[i].what == 'M') CHECK((y[i].a == sys[i].a || y[i].a == (sys[i].a | sys[i].b)) && y[i].s == sys[i].s, "syslog got priority %d, \"%s\" (%zu bytes), expected %d, \"%s\" (%zu bytes)", y[i].a, printable(y[i].s).c_str(), y[i].s.size(), sys[i].a, printable(sys[i].s).c_str(), sys[i].s.size());
	}
	wipe(dir); rmdir(dir.c_str());
}
static void files(Gen &g) { history(g, false); }
static void standard(Gen &g)
{
	Gen *p = &g; xfer[0] = 0; Outcome o = run_forked([p] { history(*p, true); }); must_return(o, "logging to a standard stream");
	g.nontrivial();
	// xfer: what each of the two should have got, message by message
	size_t at[3] = { 0, 0, 0 }; const std::string *s[3] = { nullptr, &o.out, &o.err }; const char *q = xfer;
	while (*q) {
		int w = *q++ - '0'; char *e; size_t n = strtoul(q, &e, 10); std::string m(e + 1, n); q = e + 1 + n + 1;
		size_t k = match_text(*s[w], at[w], m, true); CHECK(k, "standard %s should have the bare message \"%s\" (%zu bytes), but there is \"%s\"", w == 1 ? "output" : "error", printable(m).c_str(), m.size(), printable(s[w]->substr(std::min(at[w], s[w]->size())), 150).c_str()); at[w] += k;
	}
	for (int w = 1; w < 3; w++) CHECK(at[w] == s[w]->size(), "standard %s has more: \"%s\"", w == 1 ? "output" : "error", printable(s[w]->substr(at[w]), 150).c_str());
}
static void refused(Gen &g)
{
	reset_lib(); std::string dir = scratch_dir() + "/ref"; wipe(dir); mkdir(dir.c_str(), 0755); unsigned k = g.draw(3); std::string a = dir + "/a", b = g.flip() ? a : dir + "/b"; FILE *f = fopen((dir + "/s").c_str(), "w"), *f2 = g.flip() ? f : stderr; g.nontrivial(); g.note("case %u", k);
	bool others = g.flip(); std::string bad = g.flip() ? std::string(g.pick(std::vector<const char *>{ "", "User", "user ", "local8", "nosuch", "local", "mai", "maill", "LOG_USER", "%s%n" })) : g.str(6, ""); bad = bad.c_str(); if (fac.count(bad) || bad == "kern" || bad == "security" || bad == "mark") bad = "?";
	Outcome o = run_forked([&] {
		if (others) { if (k != 0) log_file("i", a.c_str()); if (k != 1) log_stream("i", f); if (k != 2) log_syslog("i"); }
		switch (k) { case 0: log_file("i", a.c_str()); log_file("j", b.c_str()); break; case 1: log_stream("i", f); log_stream("j", f2); break; case 2: log_syslog("i"); log_syslog("j"); break; default: log_set_facility(bad.c_str()); } });
	fclose(f);
	if (k < 3) CHECK(o.aborted() && o.err.find("Internal error") != std::string::npos, "opening an open destination (%u) should abort: it %s", k, o.str().c_str());
	else CHECK(o.exit1() && o.err.find(bad) != std::string::npos, "the facility \"%s\" should be a fatal error: it %s", printable(bad).c_str(), o.str().c_str());
	wipe(dir); rmdir(dir.c_str());
}
// a log file that cannot be opened is a fatal error, at once or when the name comes to be it
static void unopenable(Gen &g)
{
	reset_lib(); std::string dir = scratch_dir() + "/uno"; wipe(dir); mkdir(dir.c_str(), 0755); unsigned how = g.draw(4); bool later = g.flip(), prog = g.flip(); g.nontrivial();
	static const char *kind[] = { "a directory", "below a regular file", "with a component too long", "a dangling link into nowhere", "the empty name" }; g.label(kind[how]); g.note("%s%s", kind[how], later ? ", from the second day on" : "");
	int64_t T = 1600000000; std::string d1 = "20200913", d2 = "20200914", base = g.pick(std::vector<const char *>{ "log", "l.x", "s u b" }), day = later ? d2 : d1, name, bad; if (how == 4) later = false;
	auto touch = [](const std::string &p) { FILE *f = fopen(p.c_str(), "w"); fputs("x", f); fclose(f); };
	switch (how) {
	case 0: bad = dir + "/" + base + day; mkdir(bad.c_str(), 0755); name = dir + "/" + base + "%Y%m%d"; break;
	case 1: touch(dir + "/" + base + day); name = dir + "/" + base + "%Y%m%d/sub/" + base; bad = dir + "/" + base + day + "/sub/" + base; break;
	case 2: name = dir + "/" + std::string(later ? 250 : 400, 'n') + (later ? "%d/%Y/%m" : ""); bad = dir + "/" + std::string(400, 'n'); if (later) { name = dir + "/%d/" + base; bad = dir + "/14/" + base; mkdir((dir + "/14").c_str(), 0755); mkdir(bad.c_str(), 0755); } break;
	case 3: bad = dir + "/" + base + day; if (symlink("/nonexistent/verif/file", bad.c_str())) CHECK(0, "harness: symlink"); name = dir + "/" + base + "%Y%m%d"; break;
	default: name = ""; bad = ""; }
	unsigned before = g.draw(3); std::string m = "message";
	Outcome o = run_forked([&] {
		vf.clock = true; vf.real = T * 1000000; if (prog) err_set_program_name("p");
		log_file("id", name.c_str()); if (!later) return;
		for (unsigned i = 0; i < before; i++) log_info("%s", m.c_str()); vf.real += 86400ll * 1000000; log_info("%s", m.c_str()); });
	CHECK(o.exit1(), "a log file that is %s should be a fatal error: it %s", kind[how], o.str().c_str());
	if (!bad.empty()) CHECK(o.err.find(bad) != std::string::npos, "the report does not name the file %s: \"%s\"", bad.c_str(), printable(o.err, 300).c_str());
	CHECK(!o.err.empty(), "there is no report");
	if (later) { std::string good = bad; size_t at = good.find(how == 2 ? "/14" : d2); good.replace(at, how == 2 ? 3 : 8, how == 2 ? "/13" : d1); std::string s = read_file(good); size_t n = std::count(s.begin(), s.end(), '\n'); CHECK(n == before, "%zu lines were logged on the first day, expected %u", n, before); }
	wipe(dir); rmdir(dir.c_str());
}
static Target t4("unopenable", 1500, 20000, unopenable, false);
static Target t1("files", 30000, 1500000, files);
static Target t2("standard", 3000, 60000, standard, false);
static Target t3("refused", 2000, 20000, refused, false);
