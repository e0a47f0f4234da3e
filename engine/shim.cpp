#include "lib.h"
#include <signal.h>
#include <sys/wait.h>
#include <errno.h>
#include <new>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <sys/select.h>
#include <time.h>
#include <syslog.h>
#include <unistd.h>
#include <unordered_map>
#include <malloc.h>

Shim vf;
struct Blk { size_t size; long seq; const char *what; };
static std::unordered_map<const void *, Blk> *live;
static long seq, live_bytes;

long vf_live() { return live ? (long)live->size() : 0; }
long vf_live_bytes() { return live_bytes; }
bool vf_is_live(const void *p, size_t *n) { if (!live) return false; auto i = live->find(p); if (i == live->end()) return false; if (n) *n = i->second.size; return true; }
std::string vf_live_report()
{
	std::string s; int k = 0;
	std::map<long, std::pair<const void *, Blk>> o;
	if (live) for (auto &b : *live) o[b.second.seq] = b;
	for (auto &b : o) {
		char t[160]; snprintf(t, sizeof t, "%s allocation %ld, %zu bytes (%s): ", k ? ";" : "", b.first, b.second.second.size, b.second.second.what);
		s += t + printable(std::string((const char *)b.second.first, std::min<size_t>(24, b.second.second.size)));
		if (++k == 5) { s += " ..."; break; }
	}
	return s;
}
static std::vector<std::pair<const void *, std::string>> *snap; static std::vector<long> *snapseq;
void vf_snapshot(const std::vector<const void *> &v) { if (!snap) snap = new std::vector<std::pair<const void *, std::string>>, snapseq = new std::vector<long>; snap->clear(); snapseq->clear(); for (auto p : v) { auto b = live->find(p); if (b == live->end()) continue; snap->push_back({ p, std::string((const char *)p, b->second.size) }); snapseq->push_back(b->second.seq); } }
std::string vf_changes()
{
	char t[120];
	for (size_t i = 0; snap && i < snap->size(); i++) { auto &x = (*snap)[i]; auto b = live->find(x.first);
		if (b == live->end() || b->second.seq != (*snapseq)[i]) { snprintf(t, sizeof t, "a block of %zu bytes (allocation %ld) was released", x.second.size(), (*snapseq)[i]); return t; }
		if (memcmp(x.first, x.second.data(), x.second.size())) { size_t k = 0; while (((const char *)x.first)[k] == x.second[k]) k++; snprintf(t, sizeof t, "byte %zu of a block of %zu bytes (allocation %ld) was modified", k, x.second.size(), (*snapseq)[i]); return t; } }
	return "";
}
void vf_track_start() { if (!live) live = new std::unordered_map<const void *, Blk>; live->clear(); seq = 0; live_bytes = 0; vf.track = true; }
void vf_track_stop() { vf.track = false; if (live) live->clear(); }

static bool deny()
{
	if (!vf.counting) return false;
	vf.allocs++;
	if (vf.fail_at && vf.allocs == vf.fail_at) { vf.failed++; errno = ENOMEM; return true; }
	return false;
}
static void *add(void *p, size_t n, const char *what) { if (p && vf.track) { (*live)[p] = Blk{ n, ++seq, what }; live_bytes += n; } return p; }
static void drop(const void *p) { if (vf.track) { auto i = live->find(p); if (i != live->end()) { live_bytes -= i->second.size; live->erase(i); } } }

extern "C" {
void *vf_malloc(size_t n) { return deny() ? nullptr : add(malloc(n), n, "malloc"); }
void *vf_calloc(size_t n, size_t m) { return deny() ? nullptr : add(calloc(n, m), n * m, "calloc"); }
void *vf_realloc(void *p, size_t n)
{
	if (deny()) return nullptr;
	void *q = realloc(p, n);
	if (q || !n) { if (p) drop(p); add(q, n, "realloc"); }
	return q;
}
void *vf_reallocarray(void *p, size_t n, size_t m) { size_t t; if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return nullptr; } return vf_realloc(p, t); }
void vf_free(void *p) { if (p) drop(p); free(p); }
char *vf_strdup(const char *s) { if (deny()) return nullptr; size_t n = strlen(s) + 1; char *p = (char *)malloc(n); if (p) memcpy(p, s, n); add(p, n, "strdup"); return p; }
char *vf_strndup(const char *s, size_t m) { if (deny()) return nullptr; size_t n = strnlen(s, m); char *p = (char *)malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } add(p, n + 1, "strndup"); return p; }
int vf_vasprintf(char **r, const char *f, va_list ap) { if (deny()) { *r = nullptr; return -1; } int n = vasprintf(r, f, ap); if (n >= 0) add(*r, n + 1, "asprintf"); return n; }
int vf_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = vf_vasprintf(r, f, ap); va_end(ap); return n; }
int vf_posix_memalign(void **r, size_t a, size_t n) { if (deny()) return ENOMEM; int e = posix_memalign(r, a, n); if (!e) add(*r, n, "posix_memalign"); return e; }
void *vf_aligned_alloc(size_t a, size_t n) { return deny() ? nullptr : add(aligned_alloc(a, n), n, "aligned_alloc"); }
void *vf_memalign(size_t a, size_t n) { return deny() ? nullptr : add(memalign(a, n), n, "memalign"); }

static timeval tv_of(int64_t us) { timeval t; t.tv_sec = us / 1000000; t.tv_usec = us % 1000000; return t; }
time_t vf_time(time_t *t) { time_t r = vf.clock ? (time_t)(vf.real / 1000000) : time(nullptr); if (t) *t = r; return r; }
int vf_gettimeofday(timeval *t, void *z) { if (!vf.clock) return gettimeofday(t, (struct timezone *)z); if (t) *t = tv_of(vf.real); return 0; }
int vf_clock_gettime(clockid_t c, timespec *t)
{
	if (!vf.clock) return clock_gettime(c, t);
	int64_t us = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? vf.self_u + vf.self_s : vf.real;
	t->tv_sec = us / 1000000; t->tv_nsec = us % 1000000 * 1000; return 0;
}
int vf_getrusage(int w, rusage *r)
{
	if (!vf.clock) return getrusage((__rusage_who_t)w, r);
	memset(r, 0, sizeof *r);
	bool c = w == RUSAGE_CHILDREN;
	r->ru_utime = tv_of(c ? vf.child_u : vf.self_u); r->ru_stime = tv_of(c ? vf.child_s : vf.self_s); return 0;
}
clock_t vf_times(tms *t)
{
	if (!vf.clock) return times(t);
	long hz = sysconf(_SC_CLK_TCK); auto k = [&](int64_t us) { return (clock_t)(us * hz / 1000000); };
	t->tms_utime = k(vf.self_u); t->tms_stime = k(vf.self_s); t->tms_cutime = k(vf.child_u); t->tms_cstime = k(vf.child_s); return k(vf.real);
}
clock_t vf_clock(void) { return vf.clock ? (clock_t)((vf.self_u + vf.self_s) * (CLOCKS_PER_SEC / 1000000)) : clock(); }

ssize_t vf_write(int fd, const void *b, size_t n) { return vf.write_hook ? vf.write_hook(fd, b, n) : write(fd, b, n); }
ssize_t vf_read(int fd, void *b, size_t n) { return vf.read_hook ? vf.read_hook(fd, b, n) : read(fd, b, n); }
pid_t vf_fork(void) { if (vf.fork_errno) { vf.fork_failed++; errno = vf.fork_errno; return -1; } return fork(); }
int vf_kill(pid_t p, int s) { siginfo_t si; if (p <= 0 || (p != getpid() && waitid(P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT) < 0 && errno == ECHILD)) { vf.stray_kills++; errno = ESRCH; return -1; } return kill(p, s); }
int vf_pipe(int *p) { if (vf.pipe_at && !--vf.pipe_at) { vf.pipe_failed++; errno = vf.pipe_errno; return -1; } return pipe(p); }

int vf_gethostname(char *b, size_t n) { if (n <= strlen(vf_host)) { if (n) memcpy(b, vf_host, n); errno = ENAMETOOLONG; return -1; } strcpy(b, vf_host); return 0; }
int vf_uname(utsname *u) { int r = uname(u); if (!r) strcpy(u->nodename, vf_host); return r; }
void vf_openlog(const char *id, int opt, int fac) { vf.syslog.push_back({ 'O', opt, fac, id ? id : "(null)" }); }
void vf_closelog(void) { vf.syslog.push_back({ 'C', 0, 0, "" }); }
void vf_vsyslog(int pri, const char *f, va_list ap) { char *p = nullptr; if (vasprintf(&p, f, ap) >= 0) { vf.syslog.push_back({ 'M', pri, 0, p }); free(p); } }
void vf_syslog(int pri, const char *f, ...) { va_list ap; va_start(ap, f); vf_vsyslog(pri, f, ap); va_end(ap); }
}

void reset_lib(uint64_t seed)
{
	vf.counting = false; vf.fail_at = 0; vf.allocs = 0; vf.failed = 0; vf.clock = false;
	vf.read_hook = nullptr; vf.write_hook = nullptr;
	if (vf.track) vf_track_stop();
	log_close(); log_option(LOG_OPTION_FULL);
	src_destroy(); _pr_shutdown(); _prs_shutdown(); str_destroy(); _lst_shutdown(); _sl_shutdown();
	_tim_shutdown(); flg_destroy(); dbg_destroy(); err_set_program_name(nullptr);
	vf.syslog.clear();
	srandom((unsigned)seed); srand((unsigned)seed);
}
