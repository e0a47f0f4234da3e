// Access to the library under test and to the shim its objects are linked to.
#pragma once
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
extern "C" {
#include "maa.h"
}
#include "pbt.h"
#include <map>
#include <set>
#include <memory>

// The library's objects call vf_malloc, vf_write, vf_time, ... instead of the
// C library's functions (see build.py); by default these just forward.
struct LogRec { char what; int a, b; std::string s; };   // 'O'penlog 'M'essage 'C'loselog
struct Shim {
	// allocation
	bool track = false;          // account for blocks
	long allocs = 0;             // allocations made while counting
	bool counting = false;
	long fail_at = 0;            // this allocation (1-based) fails; 0: none
	long failed = 0;
	// virtual clock (microseconds)
	bool clock = false;
	int64_t real = 0, self_u = 0, self_s = 0, child_u = 0, child_s = 0;
	// input and output
	ssize_t (*read_hook)(int, void *, size_t) = nullptr;
	ssize_t (*write_hook)(int, const void *, size_t) = nullptr;
	int fork_errno = 0, fork_failed = 0;     // fail to create processes; how often that happened
	int pipe_errno = 0, pipe_at = 0, pipe_failed = 0;   // fail to create the nth pipe from now
	int stray_kills = 0;         // signals to processes that are no (longer) children
	bool record_syslog = true;
	std::vector<LogRec> syslog;
};
extern Shim vf;
static const char vf_host[] = "vf-host-of-the-checks.sub.example.org";   // what the library is told its host is
long vf_live();                      // blocks allocated while tracking and not yet freed
long vf_live_bytes();
std::string vf_live_report();
void vf_track_start();               // forget everything, start accounting
void vf_track_stop();
// remember the contents of these live blocks; say which of them changed or are gone
void vf_snapshot(const std::vector<const void *> &blocks);
std::string vf_changes();
bool vf_is_live(const void *p, size_t *size = nullptr);

// A size about a limit of 15, 16 or 17 bits, or a few hundred thousand at most.
// what f prints given no stream must be, on standard output, what it printed to a stream
template <class F> void same_on_stdout(const std::string &s, F f)
{
	char *t = nullptr; size_t n = 0; FILE *o = stdout; stdout = open_memstream(&t, &n); f((FILE *)nullptr); fclose(stdout); stdout = o; std::string z(t, n); free(t);
	CHECK(z == s, "given no stream, \"%s\" goes to standard output, expected \"%s\"", printable(z, 300).c_str(), printable(s, 300).c_str());
}
inline unsigned scale(Gen &g)
{
	static const unsigned at[] = { 65536, 32768, 131072, 66000 }; g.nontrivial(); g.label("large scale");
	switch (g.draw(3)) { case 0: return at[g.draw(3)] + (unsigned)g.draw(4) - 1; case 1: return 65537 + (unsigned)g.draw(3000); case 2: return 30000 + (unsigned)g.draw(60000); default: return 66000 + (unsigned)g.draw(180000); }
}

// Put every module of the library back into its initial state.
void reset_lib(uint64_t seed = 1);
