#include "prutil.h"
const char *PROPERTY = "C20", *LEVEL = "exploration";
const char *RULE = "A case is a process that passes up to 2 MB (often around a multiple of the size of a pipe, also nothing) through a filter with pr_filter, or with pr_open and pr_readwrite. The filter is a program with random reading and writing sizes, delays and mappings (same, longer, shorter, a checksum at the end, everything at the end, output before any input), and a random status. The library's reads and writes are cut short, told to try again or interrupted, and signals with handlers arrive, at random; other children may be open. The output buffer, of exactly its stated size, is ample, fits exactly, or is too small by one or more. "
	"fits: output, its length, the warning about a status, the unmodified input and the absence of leftovers (descriptors, processes) are compared with a model; not ending within 20 s is a violation. overflows, early: the process must end with status 1 (if not killed by SIGPIPE, where that is not ignored). broken: so it must if a read or write fails for good; descriptors that are closed or not of the library must be diagnosed. Non-trivial: input or output is larger than a pipe (65536 bytes), or the buffer fits exactly, or input or output is empty.";
const char *ASSUMPTIONS = "the filter ends once it has read its input\na filter that leaves at most one pipe's worth of input unread cannot be told from one that reads everything";
static std::string helper;
static uint64_t hook_rng; static unsigned cut, again;
static unsigned hr(unsigned n) { hook_rng = mix64(hook_rng + 1); return (unsigned)(hook_rng >> 20) % n; }
static unsigned calls, fail_call; static int fail_errno; static bool debugging;
static bool meddle(int fd, size_t &n)
{
	if (fd <= 2) return false;
	if (fail_call && ++calls == fail_call) { *(volatile int *)xfer = 1; errno = fail_errno; return true; }
	if (again && !hr(again)) { int fl = fcntl(fd, F_GETFL); errno = EINTR; if (fl >= 0 && fl & O_NONBLOCK && hr(2)) errno = EAGAIN; return true; }
	if (cut && n > 1 && hr(3)) { size_t k = 1 + hr(cut); if (k < n) n = k; }
	return false;
}
static ssize_t short_read(int fd, void *b, size_t n) { return meddle(fd, n) ? -1 : read(fd, b, n); }
static ssize_t short_write(int fd, const void *b, size_t n) { return meddle(fd, n) ? -1 : write(fd, b, n); }
static std::string filled(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = 'a' + i % 65536 % 26; return s; }
static std::string image(int map, const std::string &in)
{
	std::string s;
	switch (map) {
	case 1: for (char c : in) s += c, s += c, s += '|'; return s;
	case 2: for (size_t i = 1; i < in.size(); i += 2) s += (char)(in[i] ^ 1); return s;
	case 3: { unsigned long sum = 0; for (unsigned char c : in) sum = sum * 31 + c + 1; return std::to_string(sum) + " " + std::to_string(in.size()) + "\n"; }
	default: return in; }
}
static size_t length(Gen &g, bool big)
{
	switch (g.weighted({ 3, 2, 4, 2, 1 })) { case 0: return big ? 1 + g.draw(200) : g.draw(200); case 1: return big ? 1 : 0; case 2: return g.pick(std::vector<int>{ 4096, 65536, 131072, 65536 + 4096 }) + (int)g.draw(6) - 3; case 3: return g.draw(400000) + big; default: return g.draw(2000000) + big; }
}
struct Plan { size_t len; uint64_t seed; int map; unsigned rd, wr, lazy, pre; int status; int api; int others; bool tick; long slack; bool sigpipe; unsigned cut, again; int upto; };
static Plan plan(Gen &g, bool big)
{
	Plan p; p.len = length(g, big); p.seed = g.draw(1u << 30); p.map = (int)g.draw(4); if (big && p.map == 2 && p.len < 2) p.map = 0;
	unsigned least = 1 + p.len / 8000; p.lazy = g.chance(1, 4); if (p.lazy) least = 1 + p.len / 800;
	auto size = [&] { unsigned s = g.flip() ? 0 : 1 + (unsigned)g.small(70000); return s && s < least ? least : s; };
	p.rd = size(); p.wr = size(); p.pre = g.chance(1, 5) ? (unsigned)g.draw(200000) : 0; p.status = g.chance(1, 3) ? 1 + (int)g.draw(254) : 0;
	p.api = (int)g.draw(1); p.others = (int)g.weighted({ 4, 1, 1 }); p.tick = g.chance(1, 3); p.sigpipe = g.flip();
	p.cut = g.flip() ? 0 : 1 + (unsigned)g.small(70000); if (p.cut && p.cut < least) p.cut = least; p.again = g.flip() ? 0 : 2 + (unsigned)g.draw(30); p.slack = 0; p.upto = g.chance(1, 4) ? 20 + (int)g.draw(g.flip() ? 900 : 2900) : 0; if (p.upto > 256) g.label("descriptors above 256"); if (p.upto > 1023) g.label("descriptors above 1023");
	g.note("%zu bytes (seed %lu) through mapping %d after %u bytes of output, filter reads %u writes %u%s, status %d, by %s, %d other children%s, library's calls cut to %u, 1 in %u fails, descriptors from %d", p.len, (unsigned long)p.seed, p.map, p.pre, p.rd, p.wr, p.lazy ? " with delays" : "", p.status, p.api ? "pr_open and pr_readwrite" : "pr_filter", p.others, p.tick ? ", signals" : "", p.cut, p.again, p.upto);
	fail_call = 0; debugging = g.chance(1, 6); if (debugging) { g.note("with debugging output"); g.label("with debugging output"); }
	if (p.tick) g.label("signals"); if (p.others) g.label("other children open"); if (p.len > 65536) g.label("input larger than a pipe"); if (!p.len) g.label("no input"); if (p.map == 3 || p.map == 4) g.label("output at the end"); if (p.pre > 65536) g.label("much output before the input is read");
	return p;
}
static std::string input(const Plan &p) { std::string s(p.len, 0); uint64_t r = p.seed; for (size_t i = 0; i < p.len; i += 8) { r = mix64(r + i); for (size_t j = i; j < p.len && j < i + 8; j++) s[j] = (char)(r >> (j - i) * 8); } return s; }
// in a forked process: the whole case; what is after a normal return is left to the caller
static void go(const Plan &p, const std::string &command, const std::string &in, const std::string *want, size_t room)
{
	reset_lib(); limits(p.upto ? p.upto + 100 : 256); if (p.upto) fill_fds(p.upto); signal(SIGPIPE, p.sigpipe ? SIG_DFL : SIG_IGN); setvbuf(stderr, nullptr, _IONBF, 0);
	hook_rng = p.seed; cut = p.cut; again = p.again; vf.read_hook = short_read; vf.write_hook = short_write; if (p.tick) ticking(true);
	if (debugging) dbg_set_flag(MAA_PR);
	int fds0 = fds_open(); int a[2] = { -1, -1 }, b[2] = { -1, -1 }; std::string cat = helper + " - x cat";
	auto other = [&](int i) { pr_open(cat.c_str(), PR_CREATE_STDIN | PR_CREATE_STDOUT, &a[i], &b[i], nullptr); };
	if (p.others >= 1) other(0);
	char *ib = (char *)malloc(in.size() + !in.size()), *ob = (char *)malloc(room + !room); memcpy(ib, in.data(), in.size()); memset(ob, 0x5a, room);
	int r;
	if (p.api) { int fi, fo; int pid = pr_open(command.c_str(), PR_CREATE_STDIN | PR_CREATE_STDOUT, &fi, &fo, nullptr); CHECK(pid > 0, "pr_open returned %d", pid); if (p.others >= 2) other(1); r = pr_readwrite(fi, fo, ib, (int)in.size(), ob, (int)room); }
	else { if (p.others >= 2) other(1); r = pr_filter(command.c_str(), ib, (int)in.size(), ob, (int)room); }
	if (!want) return;
	CHECK(r == (long)want->size(), "%d bytes were returned, expected %zu", r, want->size());
	for (size_t i = 0; i < want->size(); i++) CHECK(ob[i] == (*want)[i], "byte %zu of %zu of the result is 0x%02x, expected 0x%02x", i, want->size(), ob[i] & 255, (*want)[i] & 255);
	CHECK(!memcmp(ib, in.data(), in.size()), "the input was modified");
	for (int i = 0; i < 2; i++) if (a[i] >= 0) { ssize_t w; do w = write(a[i], "ping", 4); while (w < 0 && errno == EINTR); pr_close_nowait(a[i]); std::string s = read_all(b[i]); CHECK(s == "ping", "another child answered \"%s\"", printable(s).c_str()); int st = pr_close(b[i]); CHECK(!st, "another child ended with %d", st); }
	ticking(false); int fds1 = fds_open(); CHECK(fds0 == fds1, "%d descriptors are open at the end, %d at the start", fds1, fds0);
	int st; CHECK(waitpid(-1, &st, WNOHANG) < 0 && errno == ECHILD, "a child is left at the end");
	free(ib); free(ob); _pr_shutdown();
}
static ForkOpts opts() { ForkOpts o; o.wall = 20; return o; }
static std::string filter_command(const Plan &p) { char b[400]; snprintf(b, sizeof b, "%s - x fill %u filter %d %u %u %u %lu exit %d", helper.c_str(), p.pre, p.map, p.rd, p.wr, p.lazy, (unsigned long)p.seed, p.status); return b; }
static void fits(Gen &g)
{
	helper = helper_path(); Plan p = plan(g, false); std::string in = input(p), want = filled(p.pre) + image(p.map, in), c = filter_command(p); size_t room = want.size();
	switch (g.weighted({ 3, 2, 2 })) { case 0: g.label("exact fit"); g.nontrivial(); break; case 1: room += 1 + g.draw(3); break; default: room += g.draw(500000); }
	g.note("%zu bytes of output, buffer of %zu", want.size(), room); if (p.len > 65536 || want.size() > 65536 || !p.len || want.empty()) g.nontrivial();
	Outcome o = run_forked([&] { go(p, c, in, &want, room); }, opts()); CHECK(!o.timeout, "filtering did not end within 20 s"); must_return(o, "filtering");
	bool warned = o.err.find("on-zero") != std::string::npos; CHECK(warned == !!p.status, "the filter ended with status %d and there was %s warning: %s", p.status, warned ? "a" : "no", printable(o.err).c_str());
}
static void must_fail(Gen &g, const Plan &p, const Outcome &o, const char *what)
{
	CHECK(!o.timeout, "%s: did not end within 20 s", what);
	CHECK((o.exit1() && !o.err.empty()) || (p.sigpipe && o.signaled && o.sig == SIGPIPE), "%s should be a fatal error: it %s", what, o.str().c_str());
}
static void overflows(Gen &g)
{
	helper = helper_path(); Plan p = plan(g, true); std::string in = input(p), want = filled(p.pre) + image(p.map, in), c = filter_command(p); size_t room = want.size() - 1; g.nontrivial();
	switch (g.weighted({ 3, 2, 2, 1 })) { case 0: g.label("too small by one"); break; case 1: room -= std::min<size_t>(room, g.draw(5)); break; case 2: room = g.draw(room); break; default: room = 0; g.label("no room"); }
	g.note("%zu bytes of output, buffer of %zu", want.size(), room);
	Outcome o = run_forked([&] { go(p, c, in, nullptr, room); }, opts()); must_fail(g, p, o, "output that does not fit the buffer"); CHECK(o.exit1(), "output that does not fit the buffer should be a fatal error: it %s", o.str().c_str());
}
static void early(Gen &g)
{
	helper = helper_path(); Plan p = plan(g, true); size_t take = g.flip() ? 0 : g.draw(100000); p.len = take + 65537 + (g.flip() ? g.draw(3) : g.flip() ? 70000 + g.draw(200) : g.draw(1000000)); bool shut = g.chance(1, 3); std::string in = input(p); g.nontrivial();
	std::string c = helper + " - x take " + std::to_string(take) + (g.flip() ? " out xyz" : "") + (shut ? " shut" : "") + (g.flip() ? " nap " + std::to_string(g.draw(3000)) : ""); 
	switch (g.draw(3)) { case 1: c += " exit 1"; break; case 2: c += " kill 15"; break; case 3: if (g.flip()) { c = "/nonexistent/filter"; g.label("cannot be run"); } }
	g.note("%zu bytes to a filter that ends after %zu: %s", p.len, take, c.substr(c.find(" - ") == std::string::npos ? 0 : c.find(" - ") + 1).c_str()); g.label(p.sigpipe ? "SIGPIPE default" : "SIGPIPE ignored");
	Outcome o = run_forked([&] { go(p, c, in, nullptr, 2000000); }, opts()); must_fail(g, p, o, "a filter that ends before reading its input");
}
// a read or write that fails for good is a fatal error; so is a descriptor that is none
static void broken(Gen &g)
{
	helper = helper_path(); Plan p = plan(g, true); std::string in = input(p), c = filter_command(p); size_t room = filled(p.pre).size() + image(p.map, in).size(); g.nontrivial(); unsigned how = g.draw(3); *(volatile int *)xfer = 0;
	if (how) {
		calls = 0; fail_call = 1 + g.small(300); fail_errno = g.pick(std::vector<int>{ EIO, ENOSPC, EINVAL, EFBIG, EBADF }); g.note("call %u fails with error %d", fail_call, fail_errno); g.label("call fails");
		Outcome o = run_forked([&] { go(p, c, in, nullptr, room); }, opts()); CHECK(!o.timeout, "filtering did not end within 20 s after error %d", fail_errno);
		if (*(volatile int *)xfer) CHECK(o.exit1() && !o.err.empty(), "a call that failed with error %d should be a fatal error: it %s", fail_errno, o.str().c_str()); else must_return(o, "filtering");
		return;
	}
	unsigned which = g.draw(5); static const char *w[] = { "input descriptor -1", "output descriptor -1", "input descriptor closed", "output descriptor closed", "input descriptor not created by pr_open", "output descriptor not created by pr_open" }; g.note("%s", w[which]); g.label("wrong descriptor");
	Outcome o = run_forked([&] {
		reset_lib(); limits(256); signal(SIGPIPE, SIG_IGN); int a, b; char x[16]; pr_open("cat", PR_CREATE_STDIN | PR_CREATE_STDOUT, &a, &b, nullptr); int f = open("/dev/null", O_RDWR);
		switch (which) { case 0: a = -1; break; case 1: b = -1; break; case 2: close(a); break; case 3: close(b); break; case 4: pr_close_nowait(a); a = f; break; default: b = f; }
		pr_readwrite(a, b, "abc", which == 5 ? 0 : 3, x, sizeof x); }, opts());
	CHECK(!o.timeout && (o.exit1() || o.aborted()) && !o.err.empty(), "%s: that should be diagnosed, but it %s", w[which], o.str().c_str());
}
static Target t4("broken", 400, 10000, broken, false);
static Target t1("fits", 2500, 60000, fits, false);
static Target t2("overflows", 800, 20000, overflows, false);
static Target t3("early", 500, 10000, early, false);
