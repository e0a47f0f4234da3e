#include "pbt.h"
#include <atomic>
#include <algorithm>
#include <map>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

using std::string; using std::vector;

extern "C" const char *__asan_default_options()
{
	return "exitcode=99:detect_leaks=0:quarantine_size_mb=16:malloc_context_size=12:"
	       "allocator_may_return_null=1:detect_stack_use_after_return=0:"
	       "handle_abort=0:handle_sigill=1:print_summary=1:symbolize=0:"
	       "max_allocation_size_mb=6000:intercept_tls_get_addr=0:detect_odr_violation=0";
}

static const size_t MAXCH = 1 << 19, MAXSPAN = 1 << 17, MSG = 1 << 14, NOTES = 1 << 16;
static const int NLAB = 96, MAXW = 64;
struct Label { char name[56]; uint64_t n; };
struct Slot {
	std::atomic<long> cur;          // case index being run, -1 idle
	std::atomic<uint64_t> start;    // ns
	std::atomic<uint64_t> evals;
	std::atomic<uint64_t> nontriv;
	long samples[3]; std::atomic<int> nsamples;
	std::atomic<size_t> nch, nspan;
	char msg[MSG]; size_t notelen; char notes[NOTES];
	Label labels[NLAB];
	struct { uint32_t b, e; } span[MAXSPAN];
	uint64_t ch[MAXCH];
};
static Slot *slots;              // MAXW of them
static Slot *me;                 // the slot of this process
static std::atomic<uint64_t> *dset; static const size_t DSET = 1 << 22;
static std::atomic<uint64_t> *dcount;
char *xfer;
static string g_scratch; static pid_t g_scratch_owner;
static uint64_t g_seed; static string g_tier; static int g_workers;
static bool g_fuzz;
void (*known_finding_probe)() = nullptr;

static vector<Target *> &targets() { static vector<Target *> t; return t; }
Target::Target(const char *n, long q, long t, PropFn f, bool fz, double w, double c)
	: name(n), fn(f), quick(q), thorough(t), wall(w), cpu(c), fuzzable(fz) { targets().push_back(this); }

uint64_t mix64(uint64_t x) {
	x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
static uint64_t now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ULL + t.tv_nsec; }
static uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }

// ---------------------------------------------------------------- choices
uint64_t Gen::next_rng() { rng += 0x9e3779b97f4a7c15ULL; uint64_t x = rng;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
uint64_t Gen::hidden(uint64_t max) { return max == ~0ULL ? next_rng() : next_rng() % (max + 1); }

uint64_t Gen::draw(uint64_t max)
{
	uint64_t v = 0;
	if (max == 0) return 0;                       // no choice at all
	if (me->nch >= MAXCH) return 0;
	switch (mode) {
	case RANDOM: v = hidden(max); break;
	case REPLAY: v = pos < nrep ? std::min(rep[pos], max) : 0; pos++; break;
	case BYTES: {
		int n = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffULL ? 4 : 8;
		for (int i = 0; i < n && dpos < ndata; i++) v |= (uint64_t)data[dpos++] << (8 * i);
		if (max != ~0ULL) v %= max + 1;
	}}
	me->ch[me->nch++] = v;
	return v;
}
uint64_t Gen::small(uint64_t max)
{
	if (!max) return 0;
	unsigned bits = 64 - __builtin_clzll(max);
	unsigned b = draw(bits);                      // magnitude first
	if (!b) return 0;
	uint64_t hi = b >= 64 ? ~0ULL : (1ULL << b) - 1; if (hi > max) hi = max;
	uint64_t lo = 1ULL << (b - 1);
	return lo + draw(hi - lo);
}
uint64_t Gen::wide(unsigned bits)
{
	uint64_t m = bits >= 64 ? ~0ULL : (1ULL << bits) - 1;
	switch (draw(4)) {
	case 0: return small(m);
	case 1: { uint64_t b = 1ULL << draw(bits - 1); return (b + draw(4) - 2) & m; }
	case 2: return (m - small(m)) & m;
	case 3: { uint64_t v = 0; for (unsigned i = draw(5) + 1; i; i--) v |= 1ULL << draw(bits - 1); return v; }
	default: return draw(m);
	}
}
unsigned Gen::weighted(std::initializer_list<unsigned> w)
{
	unsigned sum = 0; for (unsigned x : w) sum += x;
	uint64_t r = draw(sum - 1); unsigned i = 0;
	for (unsigned x : w) { if (r < x) return i; r -= x; i++; }
	return 0;
}
string Gen::str(size_t maxlen, const string &alphabet)
{
	size_t n = small(maxlen); string s; s.reserve(n);
	for (size_t i = 0; i < n; i++)
		s += alphabet.empty() ? (char)draw(255) : alphabet[draw(alphabet.size() - 1)];
	return s;
}
void Gen::label(const char *name)
{
	for (int i = 0; i < NLAB; i++) {
		Label &l = me->labels[i];
		if (!l.name[0]) { snprintf(l.name, sizeof l.name, "%s", name); l.n = 1; return; }
		if (!strncmp(l.name, name, sizeof l.name - 1)) { l.n++; return; }
	}
}
void Gen::note(const char *fmt, ...)
{
	if (!verbose) return;
	va_list ap; va_start(ap, fmt);
	size_t l = me->notelen;
	if (l + 2 < NOTES) {
		int n = vsnprintf(me->notes + l, NOTES - l - 1, fmt, ap);
		if (n > 0) { l = std::min(l + n, NOTES - 3); me->notes[l++] = '\n'; me->notes[l] = 0; me->notelen = l; }
	}
	va_end(ap);
}
Loop::Loop(Gen &gg, uint64_t maxn, uint64_t minn) : g(gg)
{
	left = maxn;
	if (g.mode == Gen::RANDOM) {
		// lengths: skewed to small, sometimes near the maximum
		uint64_t k = g.hidden(9);
		if (k == 0) left = maxn; else if (k < 4) left = g.hidden(maxn);
		else { uint64_t b = maxn ? 64 - __builtin_clzll(maxn) : 0; b = g.hidden(b); uint64_t m = b ? (1ULL << b) - 1 : 0; left = std::min(maxn, g.hidden(m) + 1); }
		if (left < minn) left = minn;
	}
}
static void span_end(long &s) { if (s >= 0) { me->span[s].e = me->nch; s = -1; } }
bool Loop::more()
{
	span_end(span);
	if (me->nspan < MAXSPAN) { span = me->nspan++; me->span[span].b = me->nch; me->span[span].e = 0; }
	bool go;
	if (me->nch >= MAXCH) go = false;
	else if (g.mode == Gen::RANDOM) { go = left > 0; me->ch[me->nch++] = go; }
	else if (g.mode == Gen::REPLAY) { go = g.draw(1) && left > 0; me->ch[me->nch - 1] = go; }   // the last one of a full loop is recorded too
	else { go = left > 0 && g.dpos < g.ndata && (g.data[g.dpos++] & 15); me->ch[me->nch++] = go; }
	if (left) left--;
	return go;
}
Loop::~Loop() { span_end(span); }

// ---------------------------------------------------------------- failing
static string g_fuzz_out;
void fail(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); vsnprintf(me->msg, MSG, fmt, ap); va_end(ap);
	if (g_fuzz) { fprintf(stderr, "PBT FAIL: %s\n", me->msg); abort(); }
	_exit(77);
}
void must_return(const Outcome &o, const char *what) { if (o.returned) return; if (o.exited && (o.code == 77 || o.code == 78) && me->msg[0]) { if (g_fuzz) abort(); _exit(77); } fail("%s: it %s", what, o.str().c_str()); }
string printable(const string &s, size_t max)
{
	string r = "\""; char b[8]; size_t i = 0;
	for (unsigned char c : s) {
		if (i++ >= max) { snprintf(b, sizeof b, "..."); r += b; break; }
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c;
	}
	r += '"'; if (s.size() > max) { char t[40]; snprintf(t, sizeof t, "(%zu bytes)", s.size()); r += t; }
	return r;
}
string printable(const char *s) { return s ? printable(string(s)) : "NULL"; }

// ---------------------------------------------------------------- scratch
static void rm_tree(const string &d)
{
	DIR *D = opendir(d.c_str()); if (!D) { unlink(d.c_str()); return; }
	while (dirent *e = readdir(D)) {
		string n = e->d_name; if (n == "." || n == "..") continue;
		string p = d + "/" + n; struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p); else unlink(p.c_str());
	}
	closedir(D); rmdir(d.c_str());
}
const string &scratch_dir() { return g_scratch; }
static void make_scratch()
{
	char t[] = "/tmp/verif-pbt-XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(2); }
	g_scratch = t; g_scratch_owner = getpid();
}

// ---------------------------------------------------------------- forked child
string Outcome::str() const
{
	char b[128];
	if (timeout) snprintf(b, sizeof b, "did not finish in time");
	else if (returned) snprintf(b, sizeof b, "returned normally");
	else if (signaled) snprintf(b, sizeof b, "killed by signal %d", sig);
	else snprintf(b, sizeof b, "exited with status %d", code);
	return string(b) + ", stderr " + printable(err, 600) + (out.empty() ? "" : ", stdout " + printable(out, 300));
}
static string slurp_fd(int fd) { string s; off_t n = lseek(fd, 0, SEEK_END); if (n > 0) { s.resize(std::min<off_t>(n, 8 << 20)); ssize_t k = pread(fd, &s[0], s.size(), 0); s.resize(k < 0 ? 0 : k); } return s; }

Outcome run_forked(const std::function<void()> &f, const ForkOpts &o)
{
	Outcome r; int fo = -1, fe = -1, fi = -1, sync[2];
	if (o.capture) { fo = memfd_create("out", MFD_CLOEXEC); fe = memfd_create("err", MFD_CLOEXEC); }
	if (!o.in.empty()) { fi = memfd_create("in", MFD_CLOEXEC); if (write(fi, o.in.data(), o.in.size()) < 0) {} lseek(fi, 0, SEEK_SET); }
	if (pipe2(sync, O_CLOEXEC)) fail("pipe: %s", strerror(errno));
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p < 0) fail("harness: fork: %s", strerror(errno));
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (o.newgroup) setpgid(0, 0);
		struct itimerval z = {}; setitimer(ITIMER_PROF, &z, nullptr);
		if (fo >= 0) { dup2(fo, 1); dup2(fe, 2); }
		if (fi >= 0) dup2(fi, 0);
		close(sync[0]);
		f();
		fflush(stdout); fflush(stderr);
		_exit(200);
	}
	if (o.newgroup) setpgid(p, p);
	close(sync[1]);
	// wait: the pipe closes when the child (and whatever inherited it) is gone; poll waitpid too
	uint64_t end = now_ns() + (uint64_t)(o.wall * 1e9); int st = 0; bool done = false;
	long slice = 1;
	for (;;) {
		pid_t w = waitpid(p, &st, WNOHANG);
		if (w == p) { done = true; break; }
		if (now_ns() > end) break;
		pollfd pf = { sync[0], POLLIN, 0 }; int pr = poll(&pf, 1, slice); 
		if (pr > 0) { usleep(50); slice = 1; } else if (slice < 20) slice *= 2;
	}
	if (!done) { if (o.newgroup) kill(-p, SIGKILL); kill(p, SIGKILL); while (waitpid(p, &st, 0) < 0 && errno == EINTR); r.timeout = true; }
	else if (o.newgroup) kill(-p, SIGKILL);
	close(sync[0]);
	if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); r.returned = r.code == 200; }
	if (WIFSIGNALED(st)) { r.signaled = true; r.sig = WTERMSIG(st); }
	if (fo >= 0) { r.out = slurp_fd(fo); r.err = slurp_fd(fe); close(fo); close(fe); }
	if (fi >= 0) close(fi);
	return r;
}

// ---------------------------------------------------------------- running cases
static void on_prof(int) { static const char m[] = "CPU time limit for one case exceeded (hang)"; memcpy(me->msg, m, sizeof m); _exit(78); }

static void begin_slot(Slot *s) { s->nch = 0; s->nspan = 0; s->msg[0] = 0; s->notelen = 0; s->notes[0] = 0; }

static void run_one(Target &t, Gen &g, long idx)
{
	begin_slot(me);
	me->start = now_ns(); me->cur = idx;
	struct itimerval tv = {}; tv.it_value.tv_sec = (long)t.cpu; setitimer(ITIMER_PROF, &tv, nullptr);
	t.fn(g);
	struct itimerval z = {}; setitimer(ITIMER_PROF, &z, nullptr);
	me->evals++;
	if (g.is_nontrivial) {
		uint64_t h = hash_str(t.name);
		for (size_t i = 0; i < me->nch; i++) h = mix64(h ^ me->ch[i]);
		if (!h) h = 1;
		me->nontriv++;
		for (size_t i = h & (DSET - 1), k = 0; k < 64; i = (i + 1) & (DSET - 1), k++) {
			uint64_t e = 0;
			if (dset[i].load() == h) break;
			if (dset[i].compare_exchange_strong(e, h)) { (*dcount)++; break; }
			if (e == h) break;
		}
		if (me->nsamples < 3) me->samples[me->nsamples++] = idx;
	}
	me->cur = -1;
}
static uint64_t case_seed(Target &t, long idx) { return mix64(g_seed * 0x9e3779b97f4a7c15ULL ^ mix64(hash_str(PROPERTY) ^ mix64(hash_str(t.name) ^ mix64(idx + 1)))); }

static void make_xfer();
static void worker_setup(int errfd)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0);
	if (errfd >= 0) { dup2(errfd, 2); dup2(errfd, 1); }
	int n = open("/dev/null", O_RDONLY); dup2(n, 0); if (n > 2) close(n);
	signal(SIGPROF, on_prof);
	make_xfer();
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	g_scratch += "/w" + std::to_string(getpid()); mkdir(g_scratch.c_str(), 0700);
}

struct Result { bool failed = false; bool hang = false; string msg, err; vector<uint64_t> ch; vector<std::pair<uint32_t, uint32_t>> spans; string notes; bool nontrivial = false; };

static string describe_death(int st, Slot *s, const string &err)
{
	char b[160];
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) return s->msg;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
		size_t p = err.find("ERROR: AddressSanitizer"); size_t e = err.find('\n', p);
		return "memory error: " + (p == string::npos ? string("AddressSanitizer") : err.substr(p, e - p));
	}
	if (WIFSIGNALED(st)) snprintf(b, sizeof b, "the library killed the process (signal %d)", WTERMSIG(st));
	else snprintf(b, sizeof b, "the library ended the process (exit status %d)", WEXITSTATUS(st));
	return string(b) + (err.empty() ? "" : ": " + printable(err, 400));
}

// Processes that a killed case left behind (in process groups of their own) become children of this
// process (a subreaper); end those that are not workers.
static std::vector<pid_t> g_workerpids;
static bool is_worker(pid_t p) { return std::find(g_workerpids.begin(), g_workerpids.end(), p) != g_workerpids.end(); }
static void not_worker(pid_t p) { g_workerpids.erase(std::remove(g_workerpids.begin(), g_workerpids.end(), p), g_workerpids.end()); }
static void reap_orphans()
{
	for (int i = 0; i < 1000; i++) {
		siginfo_t si; si.si_pid = 0;
		if (waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) || !si.si_pid || is_worker(si.si_pid)) return;
		waitpid(si.si_pid, nullptr, 0);
	}
}
static void end_orphans()
{
	for (int round = 0; round < 20; round++) {
		bool any = false; DIR *d = opendir("/proc"); if (!d) return;
		while (dirent *e = readdir(d)) {
			pid_t p = atoi(e->d_name); if (p <= 1) continue;
			char path[64], b[512]; snprintf(path, sizeof path, "/proc/%d/stat", (int)p);
			int fd = open(path, O_RDONLY | O_CLOEXEC); if (fd < 0) continue;
			ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) continue;
			b[n] = 0; char *q = strrchr(b, ')'); int ppid = 0; char st = 0;
			if (!q || sscanf(q + 1, " %c %d", &st, &ppid) != 2 || ppid != getpid()) continue;
			if (is_worker(p)) continue;
			kill(p, SIGKILL); waitpid(p, nullptr, 0); any = true;
		}
		closedir(d);
		if (!any) return;
	}
}

// Run one case (or a history of cases) in a fresh process.
static Result run_fresh(Target &t, const vector<uint64_t> *choices, const vector<long> *history, bool verbose, double wall = 0)
{
	Result r; Slot *s = &slots[MAXW - 1]; begin_slot(s); s->cur = -1;
	if (!wall) wall = t.wall;
	int efd = memfd_create("err", MFD_CLOEXEC);
	volatile bool *nt = (volatile bool *)&s->nsamples; (void)nt;
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		me = s; worker_setup(efd);
		if (choices) { Gen g; g.mode = Gen::REPLAY; g.rep = choices->data(); g.nrep = choices->size(); g.verbose = verbose; run_one(t, g, 0); }
		else for (long idx : *history) { if (ftruncate(efd, 0)) {} lseek(efd, 0, SEEK_SET); Gen g; g.rng = case_seed(t, idx); g.verbose = verbose && idx == history->back(); run_one(t, g, idx); }
		rm_tree(g_scratch);
		_exit(0);
	}
	setpgid(p, p);
	int st = 0; uint64_t t0 = now_ns(), end = t0 + (uint64_t)((history && history->size() > 1 ? wall * 4 : wall) * 1e9); long us = 100;
	for (;;) {
		if (waitpid(p, &st, WNOHANG) == p) break;
		if (now_ns() > end) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); r.hang = true; break; }
		usleep(us); if (us < 5000) us *= 2;
	}
	kill(-p, SIGKILL);
	if (r.hang) end_orphans();
	r.err = slurp_fd(efd); close(efd);
	r.ch.assign(s->ch, s->ch + s->nch);
	for (size_t i = 0; i < s->nspan; i++) if (s->span[i].e > s->span[i].b) r.spans.push_back({ s->span[i].b, s->span[i].e });
	r.notes = s->notes;
	if (r.hang) { r.failed = true; r.msg = "no answer within the wall-clock limit (hang)"; }
	else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { r.failed = true; r.hang = WIFEXITED(st) && WEXITSTATUS(st) == 78; r.msg = describe_death(st, s, r.err); }
	return r;
}

static string json_str(const string &s)
{
	string r = "\""; char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c;
	}
	return r + "\"";
}

static Result shrink(Target &t, Result best, double budget)
{
	uint64_t end = now_ns() + (uint64_t)(budget * 1e9); int tries = 0;
	auto attempt = [&](const vector<uint64_t> &c) {
		if (now_ns() > end || tries++ > 3000) return false;
		Result r = run_fresh(t, &c, nullptr, false);
		if (!r.failed) return false;
		// shorter, or lexicographically smaller
		if (r.ch.size() < best.ch.size() || (r.ch.size() == best.ch.size() && r.ch < best.ch)) { best = r; return true; }
		return false;
	};
	// first drop everything after what was consumed
	bool progress = true;
	while (progress && now_ns() < end && tries < 3000) {
		progress = false;
		// delete groups of consecutive spans, big groups first
		for (size_t grp = 64; grp >= 1; grp /= 2) {
			for (long i = (long)best.spans.size() - 1; i >= 0 && now_ns() < end; ) {
				auto sp = best.spans; if (i >= (long)sp.size()) { i = (long)sp.size() - 1; continue; }
				long j = std::max(0L, i - (long)grp + 1);
				uint32_t b = sp[j].first, e = sp[i].second; if (e < b) e = sp[i].first;
				vector<uint64_t> c = best.ch;
				if (e > c.size() || b >= e) { i--; continue; }
				c.erase(c.begin() + b, c.begin() + e);
				if (attempt(c)) { progress = true; i = std::min<long>(j, (long)best.spans.size() - 1); } else i -= std::max<size_t>(1, grp / 2);
			}
			if (grp == 1) break;
		}
		// delete arbitrary chunks
		for (size_t len : { (size_t)32, (size_t)8, (size_t)4, (size_t)2, (size_t)1 })
			for (long i = (long)best.ch.size() - (long)len; i >= 0 && now_ns() < end && best.ch.size() < 4000; i -= std::max<size_t>(1, len / 2)) {
				if (i + len > best.ch.size()) continue;
				vector<uint64_t> c = best.ch; c.erase(c.begin() + i, c.begin() + i + len);
				if (attempt(c)) progress = true;
			}
		// lower values
		for (size_t i = 0; i < best.ch.size() && now_ns() < end; i++) {
			uint64_t v = best.ch[i]; if (!v) continue;
			vector<uint64_t> c = best.ch; c[i] = 0; if (attempt(c)) { progress = true; continue; }
			for (uint64_t d = v / 2; d; d /= 2) {
				if (i >= best.ch.size() || best.ch[i] < d) break;
				c = best.ch; c[i] -= d; if (attempt(c)) progress = true;
			}
		}
		if (best.ch.size() > 4000) break;
	}
	return best;
}

static string verif_dir() { const char *e = getenv("VERIF_DIR"); return e ? e : "."; }

static void write_file(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "w"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } }

static string save_replay(Target &t, const Result &r, const vector<long> *history)
{
	string dir = verif_dir() + "/replays"; mkdir(dir.c_str(), 0777);
	uint64_t h = hash_str(t.name); for (uint64_t c : r.ch) h = mix64(h ^ c);
	char nm[64]; snprintf(nm, sizeof nm, "/%s-%08x.json", PROPERTY, (unsigned)h);
	string p = dir + nm, s = "{\"property\": " + json_str(PROPERTY) + ",\n \"target\": " + json_str(t.name) + ",\n \"seed\": " + std::to_string(g_seed) + ",\n";
	if (history) { s += " \"history\": ["; for (size_t i = 0; i < history->size(); i++) s += (i ? "," : "") + std::to_string((*history)[i]); s += "],\n"; }
	else { s += " \"choices\": ["; for (size_t i = 0; i < r.ch.size(); i++) s += (i ? "," : "") + std::to_string(r.ch[i]); s += "],\n"; }
	s += " \"failure\": " + json_str(r.msg) + ",\n \"case\": " + json_str(r.notes.substr(0, 6000)) + ",\n \"stderr\": " + json_str(r.err.substr(0, 4000)) + "}\n";
	write_file(p, s); return p;
}

// Confirm a failure in fresh processes: 3 failures needed, of up to 24 runs (of
// up to 6 for a case that did not end).
static int confirm(Target &t, const vector<uint64_t> *ch, const vector<long> *hist, Result &out)
{
	int fails = 0; bool hang = false; uint64_t stop = now_ns() + 150ULL * 1000000000ULL;
	for (int i = 0; i < 24 && fails < 3; i++) {
		if ((i == 10 && fails == 0) || now_ns() > stop) break;
		Result r = run_fresh(t, ch, hist, false);
		if (r.failed) { fails++; out = r; hang = r.hang; }
		if (hang && i >= 5) break;
	}
	return fails;
}

struct Report { uint64_t evals = 0; std::map<string, uint64_t> labels; vector<string> samples; int violations = 0; string per_target; bool truncated = false; int unreproduced = 0; };

static string proc_state(pid_t p)      // of a worker of ours, for the log
{
	string r; for (const char *f : { "wchan", "syscall", "status" }) {
		FILE *F = fopen(("/proc/" + std::to_string(p) + "/" + f).c_str(), "r"); if (!F) continue;
		char b[4096]; size_t n = fread(b, 1, sizeof b - 1, F); b[n] = 0; fclose(F);
		if (!strcmp(f, "status")) { for (const char *k : { "State:", "SigPnd:", "ShdPnd:", "SigBlk:" }) if (char *q = strstr(b, k)) r += string(q, strcspn(q, "\n")) + " "; }
		else r += string(f) + "=" + string(b, strcspn(b, "\n")) + " ";
	}
	return r;
}
static bool run_target(Target &t, long ncases, double deadline_s, Report &rep)
{
	int W = g_workers;
	uint64_t t0 = now_ns();
	uint64_t evals0 = 0;
	for (int w = 0; w < W; w++) { slots[w].cur = -1; slots[w].evals = 0; slots[w].nontriv = 0; slots[w].nsamples = 0; memset((void *)slots[w].labels, 0, sizeof slots[w].labels); }
	vector<pid_t> pid(W, 0); vector<int> efd(W, -1); vector<long> first(W), from(W); vector<bool> finished(W, false);
	for (int w = 0; w < W; w++) { efd[w] = memfd_create("err", MFD_CLOEXEC); from[w] = w; }
	auto spawn = [&](int w) {
		first[w] = from[w]; if (ftruncate(efd[w], 0)) {}
		slots[w].cur = -1;
		pid_t p = fork();
		if (p == 0) {
			me = &slots[w]; worker_setup(efd[w]);
			for (long i = from[w]; i < ncases; i += W) {
				if ((now_ns() - t0) / 1e9 > deadline_s) { rm_tree(g_scratch); _exit(79); }
				if (lseek(efd[w], 0, SEEK_END) > 0) { if (ftruncate(efd[w], 0)) {} lseek(efd[w], 0, SEEK_SET); }
				Gen g; g.rng = case_seed(t, i); run_one(t, g, i);
			}
			rm_tree(g_scratch); _exit(0);
		}
		setpgid(p, p); not_worker(pid[w]); pid[w] = p; g_workerpids.push_back(p);
	};
	for (int w = 0; w < W; w++) if (from[w] < ncases) spawn(w); else finished[w] = true;
	bool violated = false;
	while (!violated) {
		bool any = false;
		for (int w = 0; w < W && !violated; w++) {
			if (finished[w]) continue;
			any = true; int st = 0; bool dead = waitpid(pid[w], &st, WNOHANG) == pid[w], hang = false;
			if (!dead && slots[w].cur >= 0 && now_ns() > slots[w].start && (now_ns() - slots[w].start) / 1e9 > t.wall) {
				fprintf(stderr, "%s/%s: worker %d: no progress in case %ld: %s\n", PROPERTY, t.name, (int)pid[w], (long)slots[w].cur, proc_state(pid[w]).c_str());
				kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = hang = true;
			}
			if (!dead) continue;
			kill(-pid[w], SIGKILL); not_worker(pid[w]);
			if (hang) end_orphans();
			if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { finished[w] = true; continue; }
			if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 79) { finished[w] = true; rep.truncated = true; continue; }
			// a failing case
			long idx = slots[w].cur; string err = slurp_fd(efd[w]);
			if (idx < 0) { fprintf(stderr, "%s/%s: worker died between cases: %s\n", PROPERTY, t.name, describe_death(st, &slots[w], err).c_str()); idx = from[w]; }
			Result r; r.failed = true; r.hang = hang; r.err = err; r.msg = hang ? "no answer within the wall-clock limit (hang)" : describe_death(st, &slots[w], err);
			r.ch.assign(slots[w].ch, slots[w].ch + slots[w].nch);
			for (size_t i = 0; i < slots[w].nspan; i++) if (slots[w].span[i].e > slots[w].span[i].b) r.spans.push_back({ slots[w].span[i].b, slots[w].span[i].e });
			fprintf(stderr, "%s/%s: case %ld failed: %s\n", PROPERTY, t.name, idx, r.msg.c_str());
			for (int v = 0; v < W; v++) if (v != w && !finished[v]) kill(-pid[v], SIGSTOP);
			Result c = r; vector<long> hist;
			int n = confirm(t, &r.ch, nullptr, c);
			if (n >= 3) {
				bool h = c.hang; if (c.ch.empty()) c.ch = r.ch;
				if (c.spans.empty()) c.spans = r.spans;
				Result s = getenv("PBT_FAST") ? c : shrink(t, c, h ? 60 : 45);
				Result v = run_fresh(t, &s.ch, nullptr, true); if (v.failed) { v.ch = s.ch; s = v; }
				string path = save_replay(t, s, nullptr);
				fprintf(stderr, "%s/%s: minimal case (%zu choices): %s\n%s", PROPERTY, t.name, s.ch.size(), s.msg.c_str(), s.notes.substr(0, 3000).c_str());
				printf("VIOLATION property=%s replay=%s\n", PROPERTY, path.c_str()); fflush(stdout);
				violated = true; rep.violations++;
			} else {
				// does it need the cases that ran before it in the same process?
				for (long i = first[w]; i <= idx; i += W) hist.push_back(i);
				int m = hist.size() > 1 ? confirm(t, nullptr, &hist, c) : 0;
				if (m >= 3) {
					// shorten the history
					uint64_t end = now_ns() + 60ULL * 1000000000ULL;
					for (size_t k = hist.size() / 2; k >= 1 && now_ns() < end; k /= 2)
						for (size_t i = 0; i + k < hist.size() && now_ns() < end; ) {
							vector<long> h2 = hist; h2.erase(h2.begin() + i, h2.begin() + i + k);
							Result q = run_fresh(t, nullptr, &h2, false); if (q.failed) hist = h2; else i += k;
						}
					Result v = run_fresh(t, nullptr, &hist, true); if (v.failed) c = v;
					string path = save_replay(t, c, &hist);
					fprintf(stderr, "%s/%s: needs a history of %zu cases: %s\n", PROPERTY, t.name, hist.size(), c.msg.c_str());
					printf("VIOLATION property=%s replay=%s\n", PROPERTY, path.c_str()); fflush(stdout);
					violated = true; rep.violations++;
				} else {
					fprintf(stderr, "%s/%s: case %ld did not fail again (%d of the replays failed); not reported\n", PROPERTY, t.name, idx, std::max(n, m));
					rep.unreproduced++;
					from[w] = idx + W;
					if (from[w] < ncases && rep.unreproduced < 50) spawn(w); else finished[w] = true;
				}
			}
			uint64_t tn = now_ns();
			for (int v = 0; v < W; v++) if (v != w && !finished[v]) { if (slots[v].cur >= 0) slots[v].start = tn; kill(-pid[v], SIGCONT); }
		}
		if (!any) break;
		reap_orphans();
		usleep(3000);
	}
	for (int w = 0; w < W; w++) { if (violated && !finished[w] && pid[w] > 0) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); } close(efd[w]); }
	g_workerpids.clear(); end_orphans();
	uint64_t nt = 0; vector<long> samples;
	for (int w = 0; w < W; w++) {
		evals0 += slots[w].evals; nt += slots[w].nontriv;
		for (int i = 0; i < slots[w].nsamples && i < 3; i++) samples.push_back(slots[w].samples[i]);
		for (int i = 0; i < NLAB && slots[w].labels[i].name[0]; i++) rep.labels[string(t.name) + ": " + slots[w].labels[i].name] += slots[w].labels[i].n;
	}
	rep.evals += evals0;
	std::sort(samples.begin(), samples.end());
	// pick up to two samples, the larger-index ones being more varied
	if (!violated) for (size_t k = 0, got = 0; k < samples.size() && got < 2; k += std::max<size_t>(1, samples.size() / 2)) {
		vector<long> h(1, samples[k]); Result r = run_fresh(t, nullptr, &h, true);
		if (!r.notes.empty()) { string n = r.notes; if (n.size() > 1200) n = n.substr(0, 1200) + "..."; rep.samples.push_back(string(t.name) + " case " + std::to_string(samples[k]) + ":\n" + n); got++; }
	}
	char b[256]; snprintf(b, sizeof b, "%s{\"target\": %s, \"cases\": %llu, \"nontrivial\": %llu, \"seconds\": %.1f}", rep.per_target.empty() ? "" : ", ", json_str(t.name).c_str(), (unsigned long long)evals0, (unsigned long long)nt, (now_ns() - t0) / 1e9);
	rep.per_target += b;
	fprintf(stderr, "%s/%s: %llu cases (%llu non-trivial) in %.1f s\n", PROPERTY, t.name, (unsigned long long)evals0, (unsigned long long)nt, (now_ns() - t0) / 1e9);
	return violated;
}

static vector<uint64_t> parse_list(const string &s, const char *key)
{
	vector<uint64_t> v; size_t p = s.find(string("\"") + key + "\": ["); if (p == string::npos) return v;
	p = s.find('[', p) + 1; size_t e = s.find(']', p);
	while (p < e) { char *q; v.push_back(strtoull(s.c_str() + p, &q, 10)); p = q - s.c_str() + 1; if (q == s.c_str() + p - 1 && *q == ']') break; }
	return v;
}
static string parse_string(const string &s, const char *key)
{
	size_t p = s.find(string("\"") + key + "\": \""); if (p == string::npos) return "";
	p = s.find("\": \"", p) + 4; size_t e = s.find('"', p); return s.substr(p, e - p);
}
static string read_file(const string &p) { string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

static void init_shm()
{
	slots = (Slot *)mmap(nullptr, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	dset = (std::atomic<uint64_t> *)mmap(nullptr, DSET * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	dcount = (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	me = &slots[MAXW - 1];
}
static void make_xfer() { xfer = (char *)mmap(nullptr, xfer_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }

#ifdef PBT_FUZZ
// libFuzzer: the same properties, the choices decoded from the input bytes.
static Target *g_ft;
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	init_shm(); make_xfer(); g_fuzz = true; make_scratch();
	const char *n = getenv("PBT_TARGET"); for (Target *t : targets()) if (!n || !strcmp(n, t->name)) { g_ft = t; break; }
	if (!g_ft) { fprintf(stderr, "no such target\n"); exit(2); }
	return 0;
}
static void dump_choices() { const char *p = getenv("PBT_DUMP"); if (!p) return; string s = "{\"property\": \"x\", \"target\": \""; s += g_ft->name; s += "\", \"choices\": ["; for (size_t i = 0; i < me->nch; i++) s += (i ? "," : "") + std::to_string(me->ch[i]); s += "]}\n"; write_file(p, s); }
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	begin_slot(me); Gen g; g.mode = Gen::BYTES; g.data = d; g.ndata = n;
	static bool once; if (!once) { once = true; signal(SIGABRT, [](int) { dump_choices(); _exit(99); }); __sanitizer_set_death_callback(dump_choices); }
	g_ft->fn(g); return 0;
}
#else
int main(int argc, char **argv)
{
	const char *e;
	// the same addresses in every run, where that is allowed
	if (!getenv("PBT_NO_REEXEC") && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1) {
		setenv("PBT_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv);
	}
	unsetenv("PBT_NO_REEXEC");
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	g_seed = (e = getenv("VERIF_SEED")) ? strtoull(e, nullptr, 10) : 1;
	g_tier = (e = getenv("VERIF_TIER")) && *e ? e : "quick";
	double budget = g_tier == "thorough" ? 780 : 150;
	string replay, only; long cases = 0; long selftest = 0;
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		if (a == "--replay" && i + 1 < argc) replay = argv[++i];
		else if (a == "--target" && i + 1 < argc) only = argv[++i];
		else if (a == "--cases" && i + 1 < argc) cases = atol(argv[++i]);
		else if (a == "--thorough") g_tier = "thorough", budget = 780;
		else if (a == "--quick") g_tier = "quick";
		else if (a == "--list") { for (Target *t : targets()) printf("%s %d\n", t->name, t->fuzzable); return 0; }
 		else if (a == "--selftest" && i + 1 < argc) selftest = atol(argv[++i]);
		else if (a == "--budget" && i + 1 < argc) budget = atof(argv[++i]);
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	long ncpu = sysconf(_SC_NPROCESSORS_ONLN); g_workers = ncpu < 1 ? 1 : ncpu > 8 ? 8 : ncpu; if (g_workers < 4) g_workers = 4;
	if ((e = getenv("PBT_WORKERS"))) g_workers = atoi(e);
	signal(SIGPIPE, SIG_DFL); signal(SIGCHLD, SIG_DFL);
	umask(022); setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1);
	init_shm(); make_scratch();
	// xfer must be private to each worker's process tree: map it per process on first use
	make_xfer();
	uint64_t t0 = now_ns(); int rc = 0;
	if (!replay.empty()) {
		string s = read_file(replay); string tn = parse_string(s, "target");
		vector<uint64_t> ch = parse_list(s, "choices"), hi = parse_list(s, "history");
		size_t sp = s.find("\"seed\": "); if (!hi.empty() && sp != string::npos) g_seed = strtoull(s.c_str() + sp + 8, nullptr, 10);
		for (Target *t : targets()) if (tn == t->name) {
			vector<long> h(hi.begin(), hi.end());
			Result c; int n = confirm(*t, h.empty() ? &ch : nullptr, h.empty() ? nullptr : &h, c);
			Result r = run_fresh(*t, h.empty() ? &ch : nullptr, h.empty() ? nullptr : &h, true);
			fputs(r.notes.c_str(), stderr);
			if (n >= 3) { fprintf(stderr, "%s\n%s\n", c.msg.c_str(), c.err.substr(0, 3000).c_str()); printf("VIOLATION property=%s replay=%s\n", PROPERTY, replay.c_str()); rc = 1; }
			else printf("replay of %s: no failure\n", replay.c_str());
		}
		rm_tree(g_scratch); return rc;
	}
	if (selftest) {    // a case replayed from its recorded choices is the same case
		long bad = 0;
		for (Target *t : targets()) for (long i = 0; i < selftest; i++) {
			vector<long> h(1, i); Result a = run_fresh(*t, nullptr, &h, true), b = run_fresh(*t, &a.ch, nullptr, true);
			if (a.ch != b.ch || a.notes != b.notes) { bad++; if (getenv("PBT_DIFF")) { write_file("/tmp/a.txt", a.notes); write_file("/tmp/b.txt", b.notes); } size_t k = 0; while (k < a.ch.size() && k < b.ch.size() && a.ch[k] == b.ch[k]) k++; printf("%s case %ld: replay differs: %zu and %zu choices, from %zu on\n", t->name, i, a.ch.size(), b.ch.size(), k); }
		}
		printf("%s: %ld replays differ\n", PROPERTY, bad); rm_tree(g_scratch); return bad ? 2 : 0;
	}
	Report rep; bool violated = false; long total = 0;
	vector<Target *> run; for (Target *t : targets()) if (only.empty() || only == t->name) run.push_back(t);
	for (size_t k = 0; k < run.size() && !violated; k++) {
		Target *t = run[k];
		long n = cases ? cases : g_tier == "thorough" ? t->thorough : t->quick; total += n;
		double used = (now_ns() - t0) / 1e9, share = std::max(5.0, (budget - used) / (run.size() - k) * (k + 1 < run.size() ? 1.5 : 1.0));
		violated = run_target(*t, n, share, rep);
	}
	const char *skip = getenv("PBT_NO_EVIDENCE");
	string ev = "{\"property\": " + json_str(PROPERTY) + ", \"tier\": " + json_str(g_tier) + ", \"seed\": " + std::to_string(g_seed) + ", \"level\": " + json_str(LEVEL) + ",\n \"coverage\": {\"evaluations\": " + std::to_string(rep.evals) + ", \"distinct_nontrivial\": " + std::to_string((uint64_t)*dcount) + ",\n  \"rule\": " + json_str(RULE) + ",\n  \"planned_cases\": " + std::to_string(total) + ", \"stopped_by_time_budget\": " + (rep.truncated ? "true" : "false") + ", \"failures_not_reproduced\": " + std::to_string(rep.unreproduced) + ",\n  \"targets\": [" + rep.per_target + "],\n  \"classes\": {";
	bool firstl = true; for (auto &l : rep.labels) { ev += (firstl ? "" : ", ") + json_str(l.first) + ": " + std::to_string(l.second); firstl = false; }
	ev += "},\n  \"samples\": ["; for (size_t i = 0; i < rep.samples.size(); i++) ev += (i ? ",\n   " : "") + json_str(rep.samples[i]);
	ev += "]";
	if ((e = getenv("PBT_FUZZ_SUMMARY")) && *e) ev += string(",\n  \"fuzzing\": ") + json_str(e);
	ev += "},\n \"assumptions\": ["; { string a = ASSUMPTIONS; bool f = true; size_t p = 0; while (p < a.size()) { size_t q = a.find('\n', p); if (q == string::npos) q = a.size(); if (q > p) { ev += (f ? "" : ", ") + json_str(a.substr(p, q - p)); f = false; } p = q + 1; } }
	char b[64]; snprintf(b, sizeof b, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", (now_ns() - t0) / 1e9, rep.violations); ev += b;
	if (!skip) { string d = verif_dir() + "/evidence"; mkdir(d.c_str(), 0777); write_file(d + "/" + PROPERTY + ".json", ev); }
	rm_tree(g_scratch);
	if (!violated) printf("%s: held on %llu generated cases (%llu distinct non-trivial), %.1f s\n", PROPERTY, (unsigned long long)rep.evals, (unsigned long long)*dcount, (now_ns() - t0) / 1e9);
	return violated ? 1 : 0;
}
#endif
