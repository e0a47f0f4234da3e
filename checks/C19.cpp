#include "prutil.h"
const char *PROPERTY = "C19", *LEVEL = "exploration";
const char *RULE = "A case is a process that opens up to six children with random legal flags, files, one file for two streams, other children's output or the null device as given descriptors, with or without a callback, runs others by spawning, feeds, closes (waiting or not), waits for or shuts down children in random order, possibly with some of its own standard descriptors closed with signals interrupting it, with SIGCHLD ignored, with up to 3000 descriptors of its own, or with the limit of open files raised on the way. Each child runs a helper that reports its arguments and what every one of its descriptors is (device, inode, access), reads its input to the end and leaves with a chosen status or signal; reports, data, ends of file, statuses and the absence of leftovers are compared with a model. "
	"exhausted: with too few free descriptors, or when creating a pipe or a process fails, the process must end with a fatal error and no child may run; with just enough everything must work. refused: illegal flags and descriptors must abort. Non-trivial: two children with pipes were open at once, or a pipeline, a shared descriptor or a closed standard descriptor was used.";
const char *ASSUMPTIONS = "given descriptors are above 2";
struct Id { bool open = false; int type = 0; unsigned long dev = 0, ino = 0, rdev = 0; bool operator==(const Id &o) const { return open == o.open && (!open || (dev == o.dev && ino == o.ino && rdev == o.rdev)); } std::string str() const { if (!open) return "closed"; char b[80]; snprintf(b, sizeof b, "%s %lu:%lu", type == 1 ? "pipe" : type == 2 ? "device" : "file", dev, type == 2 ? rdev : ino); return b; } };
static Id ident(int fd) { Id r; struct stat st; if (fstat(fd, &st)) return r; r.open = true; r.type = S_ISFIFO(st.st_mode) ? 1 : S_ISCHR(st.st_mode) ? 2 : 0; r.dev = st.st_dev; r.ino = st.st_ino; r.rdev = S_ISCHR(st.st_mode) ? st.st_rdev : 0; return r; }
struct Kid { int pid = 0; int fd[3] = { -1, -1, -1 }; Id want[3]; int how[3] = {}; int acc[3] = { -1, -1, -1 }; std::string report, cb; std::vector<std::string> args; int status = 0; int src = -1; bool done = false, runs = true; std::string out, err; std::string file[3]; };
static std::string helper;
static std::string quoted(const std::string &s) { return s.find('\'') == std::string::npos ? "'" + s + "'" : "\"" + s + "\""; }
static void callback() { std::string s; for (int i = 0; i < 3; i++) s += ident(i).str() + ","; setenv("VF_CB", s.c_str(), 1); }
// compare what the helper saw with what it should have seen
static void check_report(Kid &k, const std::set<unsigned long> &pipes)
{
	if (!k.runs) return;
	std::string s = read_path(k.report); CHECK(!s.empty(), "the child did not run (no report)"); unlink(k.report.c_str());
	Id got[3]; int acc[3] = { -1, -1, -1 }; const char *p = s.c_str(); std::vector<std::string> args; std::string cb;
	while (*p) {
		if (*p == 'F') { int f, t, a, n; Id d; d.open = true; if (sscanf(p, "F %d %d %d %lu %lu %lu%n", &f, &t, &a, &d.dev, &d.ino, &d.rdev, &n) != 6) break; d.type = t; p += n + 1; if (f < 3) got[f] = d, acc[f] = a; else if (t == 1) CHECK(!pipes.count(d.ino), "the child has an end of a pipe created for %s open as descriptor %d", k.fd[0] >= 0 || k.fd[1] >= 0 || k.fd[2] >= 0 ? "it or another child" : "another child", f); }
		else if (*p == 'C') { const char *e = strchr(p, '\n'); cb.assign(p + 2, e - p - 2); p = e + 1; }
		else if (*p == 'A') { char *e; size_t n = strtoul(p + 2, &e, 10); args.push_back(std::string(e + 1, n)); p = e + 1 + n + 1; } else break;
	}
	for (int i = 0; i < 3; i++) { static const char *nm[] = { "input", "output", "error" }, *hw[] = { "inherited", "a new pipe", "the given descriptor", "the null device", "standard output" }; CHECK(got[i] == k.want[i], "standard %s of the child should be %s (%s), but it is %s", nm[i], hw[k.how[i]], k.want[i].str().c_str(), got[i].str().c_str());
		if (k.acc[i] >= 0) CHECK(acc[i] == k.acc[i] || acc[i] == O_RDWR, "standard %s of the child is open in mode %d", nm[i], acc[i]); }
	CHECK(args == k.args, "the child got %zu arguments, expected %zu%s%s", args.size(), k.args.size(), args.size() > 3 ? ", the fourth being " : "", args.size() > 3 ? printable(args[3]).c_str() : "");
	CHECK(cb == k.cb, "the callback saw \"%s\", expected \"%s\"", cb.c_str(), k.cb.c_str());
}
static void run(Gen &g)
{
	reset_lib(); unsigned nf = 256, hard = 0; switch (g.draw(11)) { case 0: nf = 1000; break; case 1: nf = 3000; break; case 2: hard = 3000; break; case 3: hard = 400; } nf = limits(nf, hard); bool raised = nofile == nf; signal(SIGPIPE, SIG_IGN); int upto = g.chance(1, 3) ? 3 + (int)g.draw(nf - 80) : 0; std::string dir = scratch_dir(); unsetenv("VF_CB"); setenv("PATH", ("/nonexistent:" + helper.substr(0, helper.rfind('/')) + ":/usr/bin:/bin").c_str(), 1);
	for (int i = 0; i < 3; i++) { int f = high(open((dir + "/std" + std::to_string(i)).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600)); dup2(f, i); close(f); }
	if (g.chance(1, 6)) { int m = 1 + g.draw(6); for (int i = 0; i < 3; i++) if (m >> i & 1) close(i); g.note("standard descriptors closed: %d", m); g.label("closed standard descriptors"); g.nontrivial(); }
	if (g.chance(1, 4)) { dbg_set_flag(MAA_PR); static char ob[1 << 20]; setvbuf(stdout, ob, _IOFBF, sizeof ob); g.label("with debugging output"); }
	bool tick = g.chance(1, 4); if (tick) { g.label("interrupted by signals"); ticking(true); }
	bool nochld = g.chance(1, 8); if (nochld) { signal(SIGCHLD, SIG_IGN); g.label("SIGCHLD ignored"); }   // then no status can be had
	if (upto) { g.note("descriptors below %d taken", upto); int low[3]; for (int i = 0; i < 3; i++) low[i] = fcntl(i, F_GETFD) < 0; fill_fds(upto); for (int i = 0; i < 3; i++) if (low[i]) close(i); if (upto > 64) g.label("high descriptors"); }
	int fds0 = fds_open(), seq = 0; std::vector<Kid> kids; std::set<unsigned long> pipes; Id inherited[3];
	auto newfile = [&](std::string &path) { path = dir + "/f" + std::to_string(++seq); unlink(path.c_str()); int f; do f = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); while (f < 0 && errno == EINTR); f = high(f); CHECK(f >= 0, "harness: open: %s", strerror(errno)); return f; };
	auto command = [&](Kid &k, bool spawn) {
		for (int i = 0; i < 3; i++) inherited[i] = ident(i);
		unsigned kind = k.src >= 0 ? 0 : g.weighted({ 12, 1 });   // the writer needs a reader
		if (kind == 1) { k.runs = false; k.status = 127; g.label("cannot be run"); return std::string(g.pick(std::vector<const char *>{ "/nonexistent/program", "nosuchprogram_vf -x", "/", "", "  \t ", "/etc/passwd x" })); }
		k.report = dir + "/rep" + std::to_string(++seq); unlink(k.report.c_str());
		std::string extra = g.str(8, "ab \"\\\t$*;|&<>"); if (g.chance(1, 10)) extra.assign(1 + g.draw(3000), 'e');
		k.args = { g.chance(1, 4) ? "helper" : helper, k.report, extra };   // by name: found along the path
		bool reads = k.fd[0] != -1 || k.src >= 0; if (reads) k.args.push_back("eof");
		if (k.want[1].open && g.flip()) { k.out = "out" + g.str(5, "xy "); k.args.push_back("out"); k.args.push_back(k.out); }
		if (k.want[2].open && g.flip()) { k.err = "err" + g.str(5, "xy "); k.args.push_back("err"); k.args.push_back(k.err); }
		if (!spawn && !reads && g.chance(1, 4)) { k.args.push_back("nap"); k.args.push_back(std::to_string(g.draw(3000))); }
		if (g.chance(1, 4)) { int s = g.pick(std::vector<int>{ SIGTERM, SIGKILL, SIGPIPE, SIGUSR1, SIGSEGV, SIGINT, SIGALRM, SIGHUP, SIGABRT, SIGRTMIN, SIGRTMAX, SIGXCPU, SIGSYS }); k.args.push_back("kill"); k.args.push_back(std::to_string(s)); k.status = s == SIGPIPE ? 0 : 128 + s; }
		else { k.status = g.pick(std::vector<int>{ 0, 1, 2, 127, 128, 255, 42, (int)g.draw(255) }); k.args.push_back("exit"); k.args.push_back(std::to_string(k.status)); }
		std::string c = g.flip() ? "" : " "; for (size_t i = 0; i < k.args.size(); i++) { if (i) c += g.flip() ? " " : "\t "; c += i && i < 4 ? quoted(k.args[i]) : k.args[i].find(' ') != std::string::npos ? quoted(k.args[i]) : k.args[i]; }
		return c; };
	auto finish = [&](auto &self, int n) -> void {
		Kid &k = kids[n]; if (k.done) return; if (k.src >= 0) self(self, k.src); k.done = true;
		int order = g.draw(2); bool waited = false; g.note("finish child %d%s", n, order ? " by other means" : "");
		auto expect = [&](int r, const char *what) { int w = waited ? 0 : k.status; CHECK(r == w, "%s of a child that %s gave %d, expected %d", what, waited ? "was waited for" : k.runs ? "ended as told" : "could not be run", r, w); waited = true; };
		bool more = k.fd[1] >= 0 || k.fd[2] >= 0;
		if (k.fd[0] >= 0) { if (more || order) { int p = pr_close_nowait(k.fd[0]); CHECK(p == k.pid, "pr_close_nowait returned %d instead of the process %d", p, k.pid); } else expect(pr_close(k.fd[0]), "pr_close of the input"); CHECK(fcntl(k.fd[0], F_GETFD) < 0, "the closed descriptor is still open"); }
		std::string out = k.out + (k.how[2] == 4 ? k.err : "");
		if (k.fd[1] >= 0) { std::string s = read_all(k.fd[1]); if (k.runs) CHECK(s == out, "the child's output is \"%s\", expected \"%s\"", printable(s).c_str(), printable(out).c_str()); }
		if (k.fd[2] >= 0) { std::string s = read_all(k.fd[2]); if (k.runs) CHECK(s == k.err, "the child's error output is \"%s\", expected \"%s\"", printable(s).c_str(), printable(k.err).c_str()); }
		if (order == 2) expect(pr_wait(k.pid), "pr_wait");
		if (k.fd[1] >= 0) expect(pr_close(k.fd[1]), "pr_close of the output");
		if (k.fd[2] >= 0) expect(pr_close(k.fd[2]), "pr_close of the error output");
		if (!waited) expect(pr_wait(k.pid), "pr_wait"); else if (g.flip()) expect(pr_wait(k.pid), "pr_wait");
		check_report(k, pipes);
		if (k.runs) { if (k.how[1] == 2 && !k.file[1].empty()) { std::string s = read_path(k.file[1]), w = k.file[1] == k.file[2] ? k.out + k.err : out; CHECK(s == w, "the given output file holds \"%s\", expected \"%s\"", printable(s).c_str(), printable(w).c_str()); } if (k.how[2] == 2 && !k.file[2].empty() && k.file[1] != k.file[2]) { std::string s = read_path(k.file[2]); CHECK(s == k.err, "the given error file holds \"%s\", expected \"%s\"", printable(s).c_str(), printable(k.err).c_str()); } }
		for (int i = 1; i < 3; i++) if (!k.file[i].empty()) unlink(k.file[i].c_str());
	};
	bool any = false;
	for (Loop l(g, 10, 1); l.more();) { if (!raised && g.chance(1, 3)) { raised = true; int to = g.chance(3, 4) ? (int)nf + (int)g.draw(nofile - nf - 60) : 3; g.note("raise the limit of open files from %u to %u, descriptors below %d taken", nf, nofile, to); raise_limit(); int low[3], before = fds_open(); for (int i = 0; i < 3; i++) low[i] = fcntl(i, F_GETFD) < 0; fill_fds(to); for (int i = 0; i < 3; i++) if (low[i]) close(i); fds0 += fds_open() - before; if (any) { g.label("limit raised after the first use"); g.nontrivial(); } }
	switch (g.weighted({ 5, 3, 2 })) {
	case 0: { // open
		int alive = 0; for (auto &k : kids) alive += !k.done; if (alive >= 6) break;
		Kid k; int flags = 0, fd[3] = { -7, -7, -7 }, *pt[3] = { &fd[0], &fd[1], &fd[2] }; for (int i = 0; i < 3; i++) { k.want[i] = ident(i); }
		bool to_out = g.chance(1, 5); int nmade = 0;
		for (int i = 0; i < 3; i++) { if (i == 2 && to_out && !k.want[1].open && !k.how[1]) to_out = false;   // there is no standard output to connect to
			if (i == 2 && to_out) { flags |= PR_STDERR_TO_STDOUT; k.how[2] = 4; break; }
			switch (g.weighted({ 2, 5, 3, 2 })) {
			case 0: break;
			case 1: flags |= PR_CREATE_STDIN << i; k.how[i] = 1; nmade++; break;
			case 2: flags |= PR_USE_STDIN << i; k.how[i] = 2;
				if (i == 0) { int from = -1; if (g.flip()) for (size_t j = 0; j < kids.size(); j++) if (!kids[j].done && kids[j].fd[1] >= 0) from = (int)j;
					if (from >= 0) { k.src = from; fd[0] = kids[from].fd[1]; kids[from].fd[1] = -1; g.label("pipeline"); g.nontrivial(); } else fd[0] = newfile(k.file[0]); }
				else if (i == 2 && k.how[1] == 2 && g.flip()) { if (g.flip()) pt[2] = pt[1]; fd[2] = fd[1]; k.file[2] = k.file[1]; g.label("one descriptor for two streams"); g.nontrivial(); }
				else fd[i] = newfile(k.file[i]);
				k.want[i] = ident(*pt[i]); break;
			default: flags |= PR_USE_STDIN << i; k.how[i] = 3; { struct stat st; stat("/dev/null", &st); k.want[i].open = true; k.want[i].type = 2; k.want[i].dev = st.st_dev; k.want[i].ino = st.st_ino; k.want[i].rdev = st.st_rdev; k.acc[i] = i ? O_WRONLY : O_RDONLY; } if (g.flip()) pt[i] = nullptr; else fd[i] = 0; } }
		for (int i = 0; i < 3; i++) if (k.how[i] == 1) k.fd[i] = -2, k.want[i].open = true;   // to be filled in
		if (to_out) k.want[2] = k.want[1];
		std::string c = command(k, false); unsigned cb = g.draw(2); for (auto &i : inherited) if (cb == 2) k.cb += i.str() + ","; if (cb != 2) k.cb = "-";
		g.note("open child %zu with flags 0x%03x%s%s%s: %s", kids.size(), flags, k.src >= 0 ? ", input from child " : "", k.src >= 0 ? std::to_string(k.src).c_str() : "", cb == 2 ? ", callback" : "", printable(c.substr(c.find("helper") == std::string::npos ? 0 : c.find("helper"))).c_str());
		if (nochld) k.status = 0; Buf b(c); k.pid = cb ? pr_open2(b, cb == 2 ? callback : nullptr, flags, pt[0], pt[1], pt[2]) : pr_open(b, flags, pt[0], pt[1], pt[2]);
		CHECK(k.pid > 0, "pr_open returned %d", k.pid); any = true;
		for (int i = 0; i < 3; i++) if (k.how[i] == 1) { k.fd[i] = *pt[i]; CHECK(k.fd[i] >= 0, "no descriptor was created"); k.want[i] = ident(k.fd[i]); CHECK(k.want[i].type == 1, "descriptor %d, created for the child, is %s", k.fd[i], k.want[i].str().c_str()); CHECK(pipes.insert(k.want[i].ino).second || true, "pipe"); k.acc[i] = i ? O_WRONLY : O_RDONLY; int a = fcntl(k.fd[i], F_GETFL) & O_ACCMODE; CHECK(a == (i ? O_RDONLY : O_WRONLY), "the created descriptor is open in mode %d", a); }
		for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (k.fd[i] >= 0) CHECK(k.fd[i] != k.fd[j], "one descriptor was created for two streams");
		if (to_out) k.want[2] = k.want[1];
		kids.push_back(k); int withpipes = 0; for (auto &q : kids) withpipes += !q.done && (q.fd[0] >= 0 || q.fd[1] >= 0 || q.fd[2] >= 0); if (withpipes > 1) g.nontrivial();
		if (k.fd[0] >= 0 && g.flip() && k.runs) { std::string d = g.str(20, ""); ssize_t w; do w = write(k.fd[0], d.data(), d.size()); while (w < 0 && errno == EINTR); CHECK(w == (ssize_t)d.size(), "cannot write to the child: %s", strerror(errno)); }
		break; }
	case 1: if (!kids.empty()) finish(finish, (int)g.draw(kids.size() - 1)); break;
	default: { Kid k; for (int i = 0; i < 3; i++) k.want[i] = ident(i); k.cb = "-"; std::string c = command(k, true); g.note("spawn: %s", printable(c).c_str()); if (nochld) k.status = 0; Buf b(c); int r = pr_spawn(b); any = true; CHECK(r == k.status, "pr_spawn returned %d, expected %d", r, k.status); check_report(k, pipes); int open_pipes = 0; for (auto &q : kids) open_pipes += !q.done; if (open_pipes) { g.nontrivial(); g.label("spawned while others are open"); } }
	} }
	if (g.chance(1, 3)) { // shut down with children open
		g.label("shut down"); for (size_t i = 0; i < kids.size(); i++) { Kid &k = kids[i]; if (!k.done && k.fd[0] < 0 && k.fd[1] < 0 && k.fd[2] < 0 && (k.src < 0 || kids[k.src].done)) finish(finish, (int)i); }
		g.note("shut down"); _pr_shutdown(); int st; CHECK(!vf.stray_kills, "the shutdown sent a signal to the process id of a child that had been waited for");
		for (size_t i = 0; i < kids.size(); i++) { Kid &k = kids[i]; if (k.done) continue; if (k.fd[0] < 0 && k.fd[1] < 0 && k.fd[2] < 0) { pr_wait(k.pid); continue; } pid_t w; do w = waitpid(k.pid, &st, WNOHANG); while (w < 0 && errno == EINTR); CHECK(w < 0 && errno == ECHILD, "child %zu was not reaped by the shutdown", i); }
	} else { for (size_t i = 0; i < kids.size(); i++) finish(finish, (int)i); int fds1 = fds_open(); CHECK(fds0 == fds1, "%d descriptors are open at the end, %d at the start", fds1, fds0); if (any) _pr_shutdown(); CHECK(!vf.stray_kills, "the shutdown sent a signal to the process id of a child that had been waited for"); }
	int st; pid_t w; do w = waitpid(-1, &st, WNOHANG); while (w < 0 && errno == EINTR); CHECK(w < 0 && errno == ECHILD, "a child is left at the end");
	ticking(false);
}
static void wiring(Gen &g) { helper = helper_path(); Gen *p = &g; *(volatile int *)xfer = 0; ForkOpts o; o.wall = 25; Outcome r = run_forked([p] { run(*p); *(volatile int *)xfer = p->is_nontrivial; }, o); must_return(r, "a history of children"); if (*(volatile int *)xfer) g.nontrivial(); }
static void refused(Gen &g)
{
	reset_lib(); unsigned k = g.draw(5); int fl = 0, fd = -1; g.nontrivial(); static const int base[3] = { PR_USE_STDIN | PR_CREATE_STDIN, PR_USE_STDOUT | PR_CREATE_STDOUT, PR_USE_STDERR | PR_CREATE_STDERR };
	int all = PR_USE_STDIN | PR_USE_STDOUT | PR_USE_STDERR | PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_CREATE_STDERR | PR_STDERR_TO_STDOUT;
	switch (k) { case 0: fl = (int)g.wide(32) & ~all; if (!fl) fl = 1 << 30; fl |= g.flip() ? PR_CREATE_STDOUT : 0; break; case 1: fl = base[g.draw(2)] | (g.flip() ? PR_CREATE_STDIN : 0); break; case 2: fl = PR_STDERR_TO_STDOUT | (g.flip() ? PR_USE_STDERR : PR_CREATE_STDERR) | (g.flip() ? PR_CREATE_STDOUT : 0); break;
	default: fd = g.pick(std::vector<int>{ -1, 0, 1, 2, 3, 255, 256, INT_MAX, INT_MIN, 100000, (int)g.draw(260), (int)g.wide(32) }); }
	bool before = k >= 3 && g.flip(), wait = g.flip(); g.note("flags 0x%x, descriptor %d%s", fl, fd, before ? " after children were closed" : "");
	Outcome o = run_forked([&] { limits(); int a = 0, b = 0, c = 0; setvbuf(stderr, nullptr, _IONBF, 0);
		if (k < 3) { pr_open("true", fl, &a, &b, &c); return; }
		if (before) { pr_open("true", PR_CREATE_STDIN | PR_CREATE_STDOUT, &a, &b, nullptr); int keep = b; pr_close_nowait(a); pr_close(keep); if (k == 5) fd = k & 1 ? a : b; if (k == 4) { fd = open("/dev/null", O_RDONLY); } }
		if (wait) pr_close(fd); else pr_close_nowait(fd); });
	CHECK(o.aborted() && o.err.find("Internal error") != std::string::npos, "%s should abort with a diagnosis: it %s", k < 3 ? "an illegal combination of flags" : "closing a descriptor not created by pr_open", o.str().c_str());
}
// no descriptors, pipes or processes to be had: a fatal error
static void exhausted(Gen &g)
{
	helper = helper_path(); std::string rep = scratch_dir() + "/exrep"; unlink(rep.c_str()); unsigned how = g.draw(3), flags = 0; int need = 0, room = 0, at = 0, err = 0; bool spawn = false, filter = false, others = g.flip(), pr = g.chance(1, 4); g.nontrivial();
	for (int i = 0; i < 3; i++) switch (g.draw(2)) { case 0: flags |= PR_CREATE_STDIN << i; need++; break; case 1: if (i < 2) flags |= PR_USE_STDIN << i; break; default: if (i == 2) flags |= PR_STDERR_TO_STDOUT; }
	if (how == 0) { if (!need) { flags = PR_CREATE_STDOUT; need = 1; } filter = g.chance(1, 5); if (filter) need = 2; room = (int)g.draw(2 * need + 2); }   // so many descriptors are free
	else if (how == 1) { if (!need) { flags = PR_CREATE_STDIN; need = 1; } at = 1 + g.draw(need - 1); err = g.pick(std::vector<int>{ EMFILE, ENFILE }); }
	else { err = g.pick(std::vector<int>{ EAGAIN, ENOMEM, ENOSYS }); spawn = g.flip(); filter = !spawn && g.chance(1, 4); }
	bool must = how == 0 ? room < 2 * need : true; static const char *nm[] = { "descriptors run out", "a pipe cannot be created", "no process can be created", "no process can be created" }; g.label(nm[how]); if (how == 0) g.label(must ? "too few descriptors" : "just enough descriptors");
	g.note("%s: %s, flags 0x%x, %d pipes, %d descriptors free, pipe %d fails with error %d", nm[how], spawn ? "spawn" : filter ? "filter" : "open", flags, need, room, at, err);
	std::string c = helper + " " + rep + " x " + (filter ? "cat" : "exit 3"); *(volatile int *)xfer = 0; *((volatile int *)xfer + 1) = 0;
	Outcome o = run_forked([&] {
		limits(64); signal(SIGPIPE, SIG_IGN); if (pr) dbg_set_flag(MAA_PR); int a = 0, b = 0, e = 0, x[2] = { -1, -1 };
		if (others) pr_open((helper + " - x eof").c_str(), PR_CREATE_STDIN | PR_CREATE_STDOUT, &x[0], &x[1], nullptr);
		if (how == 0) { fill_fds(1000); std::vector<int> v; for (int i = 63; i > 2 && (int)v.size() < room; i--) if (i != x[0] && i != x[1]) v.push_back(i); for (int f : v) close(f); }
		else if (how == 1) { vf.pipe_at = at; vf.pipe_errno = err; } else vf.fork_errno = err;
		int fds0 = fds_open(), r;
		if (spawn) r = pr_spawn(c.c_str()); else if (filter) { char buf[8]; r = pr_filter(c.c_str(), "abcd", 4, buf, 8); if (r == 4 && memcmp(buf, "abcd", 4)) r = -2; } else r = pr_open(c.c_str(), flags, &a, &b, &e);
		*(volatile int *)xfer = 1 + vf.fork_failed + vf.pipe_failed; *((volatile int *)xfer + 1) = r;
		if (vf.fork_failed + vf.pipe_failed || must) return;
		if (filter) { CHECK(r == 4, "with just enough descriptors the filter gave %d bytes instead of 4", r); }
		else { CHECK(r > 0, "pr_open returned %d", r); if (flags & PR_CREATE_STDIN) pr_close_nowait(a); if (flags & PR_CREATE_STDOUT) { std::string s = read_all(b); pr_close_nowait(b); } if (flags & PR_CREATE_STDERR) { std::string s = read_all(e); pr_close_nowait(e); } int st = pr_wait(r); CHECK(st == 3, "with just enough descriptors the child ended with status %d instead of 3", st); }
		int fds1 = fds_open(); CHECK(fds0 == fds1, "%d descriptors are open at the end, %d at the start", fds1, fds0);
		if (x[0] >= 0) { pr_close_nowait(x[0]); pr_close(x[1]); }
	});
	int got = *(volatile int *)xfer;
	if (how >= 1 && got == 1) return;   // it does without: nothing failed
	if (must) { CHECK(o.exit1(), "%s: that should be a fatal error, but it %s%s", nm[how], o.str().c_str(), got ? (" after returning " + std::to_string(*((volatile int *)xfer + 1))).c_str() : ""); CHECK(!o.err.empty() && o.err.find('\n') != std::string::npos, "there is no report of the fatal error"); CHECK(access(rep.c_str(), F_OK), "%s, and yet the child ran", nm[how]); }
	else must_return(o, "with just enough descriptors");
	unlink(rep.c_str());
}
static Target t3("exhausted", 1500, 20000, exhausted, false);
static Target t1("wiring", 7000, 150000, wiring, false);
static Target t2("refused", 1500, 20000, refused, false);
