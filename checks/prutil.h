#pragma once
#include "buf.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dirent.h>
#include <unistd.h>
inline std::string helper_path() { char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) n = 0; std::string s(b, n); return s.substr(0, s.rfind('/')) + "/helper"; }
inline unsigned nofile = 256;
// The limit on open files: n now, up to hard later; never more than the system grants. Returns the present limit.
inline unsigned limits(unsigned n = 256, unsigned hard = 0) { struct rlimit r, c; if (hard < n) hard = n; getrlimit(RLIMIT_NOFILE, &c); if (c.rlim_max != RLIM_INFINITY && hard > c.rlim_max) hard = (unsigned)c.rlim_max; if (n > hard) n = hard; nofile = hard; r.rlim_cur = n; r.rlim_max = hard; setrlimit(RLIMIT_NOFILE, &r); r = { 0, 0 }; setrlimit(RLIMIT_CORE, &r); return n; }
inline unsigned raise_limit() { struct rlimit r = { nofile, nofile }; setrlimit(RLIMIT_NOFILE, &r); return nofile; }
inline void on_tick(int) {}
inline void ticking(bool on, long us = 700) { struct sigaction a = {}; a.sa_handler = on_tick; sigaction(SIGALRM, &a, nullptr); struct itimerval t = {}; if (on) { t.it_interval.tv_usec = us; t.it_value.tv_usec = us; } setitimer(ITIMER_REAL, &t, nullptr); }
inline std::string read_all(int fd) { std::string s; char b[65536]; for (;;) { ssize_t n = read(fd, b, sizeof b); if (n < 0 && errno == EINTR) continue; CHECK(n >= 0, "reading from a pipe: %s", strerror(errno)); if (!n) break; s.append(b, n); } return s; }
inline std::string read_path(const std::string &p) { std::string s; int f; do f = open(p.c_str(), O_RDONLY); while (f < 0 && errno == EINTR); if (f < 0) return s; s = read_all(f); close(f); return s; }
inline int high(int fd) { if (fd > 2 || fd < 0) return fd; int f = fcntl(fd, F_DUPFD, 3); close(fd); return f; }
// Take the lowest descriptors, so that others get higher numbers.
inline void fill_fds(int upto) { int f; while ((f = open("/dev/null", O_RDWR | O_CLOEXEC)) >= 0 && f < upto); if (f >= 0) close(f); }
inline int fds_open() { int n = 0; for (int i = 0; i < (int)nofile; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
