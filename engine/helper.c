/* The command run as a child process by the checks of C19 and C20.

   helper REPORT EXTRA ACTION...   report what was inherited to the file
   REPORT ("-": do not), then do what the ACTIONs say, in order. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <unistd.h>

static unsigned long long rng;
static unsigned rnd(unsigned n) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; return n ? (unsigned)((rng >> 33) % n) : 0; }
static void put(const char *p, size_t n)
{
	while (n) { ssize_t k = write(1, p, n); if (k < 0) { if (errno == EINTR) continue; _exit(99); } p += k; n -= k; }
}
static void chunks(const char *p, size_t n, unsigned max, int lazy)
{
	while (n) { size_t k = max ? 1 + rnd(max) : n; if (k > n) k = n; put(p, k); p += k; n -= k; if (lazy && !rnd(40)) usleep(rnd(1500)); }
}
static void report(const char *path, int argc, char **argv)
{
	char tmp[4096]; int i; struct stat st; const char *cb = getenv("VF_CB");
	snprintf(tmp, sizeof tmp, "%s.tmp", path);
	/* keep the descriptors as they are while looking at them */
	static char buf[1 << 16]; size_t n = 0;
	struct rlimit rl; int top = getrlimit(RLIMIT_NOFILE, &rl) || rl.rlim_cur > 4000 ? 4000 : (int)rl.rlim_cur;
	for (i = 0; i < top; i++) if (!fstat(i, &st)) {
		int fl = fcntl(i, F_GETFL);
		n += snprintf(buf + n, sizeof buf - n, "F %d %d %d %lu %lu %lu\n", i, S_ISFIFO(st.st_mode) ? 1 : S_ISCHR(st.st_mode) ? 2 : 0, fl & O_ACCMODE, (unsigned long)st.st_dev, (unsigned long)st.st_ino, S_ISCHR(st.st_mode) ? (unsigned long)st.st_rdev : 0ul);
	}
	n += snprintf(buf + n, sizeof buf - n, "C %s\n", cb ? cb : "-");
	int f = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0600); FILE *o;
	if (f >= 0 && f <= 2) { int g = fcntl(f, F_DUPFD, 10); close(f); f = g; }
	if (f < 0 || !(o = fdopen(f, "w"))) _exit(98);
	fwrite(buf, 1, n, o);
	for (i = 0; i < argc; i++) { fprintf(o, "A %zu ", strlen(argv[i])); fputs(argv[i], o); fputc('\n', o); }
	fclose(o); rename(tmp, path);
}
/* filter MAP READ WRITE LAZY SEED: read all of the input, write its image */
static int filter(char **a)
{
	int map = atoi(a[0]); unsigned rd = atoi(a[1]), wr = atoi(a[2]); int lazy = atoi(a[3]); rng = strtoull(a[4], 0, 10);
	static char in[1 << 16], out[3 << 16]; size_t pos = 0; unsigned long sum = 0; long n; size_t i, m;
	char *all = NULL; size_t na = 0, ca = 0;
	for (;;) {
		if (lazy && !rnd(20)) usleep(rnd(2000));
		n = read(0, in, rd ? 1 + rnd(rd < sizeof in ? rd : sizeof in) : sizeof in);
		if (n < 0) { if (errno == EINTR) continue; return 97; }
		if (!n) break;
		for (i = m = 0; i < (size_t)n; i++, pos++) {
			sum = sum * 31 + (unsigned char)in[i] + 1;
			switch (map) {
			case 0: case 4: out[m++] = in[i]; break;                       /* the same */
			case 1: out[m++] = in[i]; out[m++] = in[i]; out[m++] = '|'; break;
			case 2: if (pos & 1) out[m++] = in[i] ^ 1; break;
			default: break;                                               /* only a sum at the end */
			}
		}
		if (map == 4) { if (na + m > ca) all = realloc(all, ca = (na + m) * 2); memcpy(all + na, out, m); na += m; }  /* all at the end */
		else chunks(out, m, wr, lazy);
	}
	if (map == 4) chunks(all, na, wr, lazy);
	if (map == 3) { char s[40]; chunks(s, sprintf(s, "%lu %zu\n", sum, pos), wr, lazy); }
	return 0;
}
int main(int argc, char **argv)
{
	struct rlimit r = { 0, 0 }; int i; char b[65536]; ssize_t n;
	setrlimit(RLIMIT_CORE, &r);
	if (argc < 3) return 96;
	if (strcmp(argv[1], "-")) report(argv[1], argc, argv);
	for (i = 3; i < argc; i++) {
		const char *a = argv[i];
		if (!strcmp(a, "exit")) return atoi(argv[i + 1]);
		if (!strcmp(a, "kill")) { signal(atoi(argv[i + 1]), SIG_DFL); raise(atoi(argv[i + 1])); pause(); }
		if (!strcmp(a, "eof")) { while ((n = read(0, b, sizeof b)) > 0 || (n < 0 && errno == EINTR)); }
		if (!strcmp(a, "cat")) { while ((n = read(0, b, sizeof b)) > 0) put(b, n); }
		if (!strcmp(a, "take")) { long k = atol(argv[++i]); while (k > 0 && (n = read(0, b, k < (long)sizeof b ? k : (long)sizeof b)) > 0) k -= n; }
		if (!strcmp(a, "out")) { a = argv[++i]; put(a, strlen(a)); }
		if (!strcmp(a, "fill")) { long k = atol(argv[++i]); for (n = 0; n < (long)sizeof b; n++) b[n] = 'a' + n % 26; while (k > 0) { put(b, k < (long)sizeof b ? k : (long)sizeof b); k -= sizeof b; } }
		if (!strcmp(a, "err")) { a = argv[++i]; if (write(2, a, strlen(a)) < 0) {} }
		if (!strcmp(a, "shut")) close(1);
		if (!strcmp(a, "nap")) usleep(atol(argv[++i]));
		if (!strcmp(a, "stay")) for (;;) pause();
		if (!strcmp(a, "filter")) { int s = filter(argv + i + 1); if (s) return s; i += 5; }
	}
	return 0;
}
