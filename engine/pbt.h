// A small Hypothesis-style property-based testing engine.
//
// A property is a function of a Gen: every random decision is one bounded
// integer "choice" drawn from it.  A case is therefore the list of its
// choices; it can be replayed from that list, shrunk by editing the list
// (0 is always the simplest choice), or driven by libFuzzer's bytes.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>

struct Gen {
	// one choice in 0..max (inclusive)
	uint64_t draw(uint64_t max);
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
	// true with probability num/den; the simplest choice is false
	bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
	bool flip() { return draw(1); }
	// 0..max, strongly skewed to small values but reaching max
	uint64_t small(uint64_t max);
	// a full-width value with edge cases (powers of two, all ones, ...)
	uint64_t wide(unsigned bits = 64);
	template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
	// weighted operation choice: returns the index of the chosen weight
	unsigned weighted(std::initializer_list<unsigned> w);
	// bytes from an alphabet (empty alphabet: any byte)
	std::string str(size_t maxlen, const std::string &alphabet = "");

	// reporting
	void label(const char *name);                  // classify this case
	void nontrivial() { is_nontrivial = true; }
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	bool verbose = false;
	bool is_nontrivial = false;

	// --- engine internals
	enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
	uint64_t rng = 0;
	const uint64_t *rep = nullptr; size_t nrep = 0, pos = 0;
	const uint8_t *data = nullptr; size_t ndata = 0, dpos = 0;
	uint64_t next_rng();
	uint64_t hidden(uint64_t max);                 // not recorded; RANDOM mode only
};

// Repeat a step a random number of times; every iteration is a unit the
// shrinker can delete:   for (Loop l(g, 100); l.more(); ) { ... }
struct Loop {
	Gen &g; uint64_t left; long span = -1;
	Loop(Gen &g, uint64_t maxn, uint64_t minn = 0);
	bool more();
	~Loop();
};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)

// Run f in a forked child with stdout and stderr captured.
struct Outcome {
	bool returned = false;     // f returned normally
	bool exited = false; int code = 0;
	bool signaled = false; int sig = 0;
	bool timeout = false;
	std::string out, err;
	bool aborted() const { return signaled && sig == 6; }
	bool exit1() const { return exited && !returned && code == 1; }
	std::string str() const;
};
struct ForkOpts { bool capture = true; double wall = 60; bool newgroup = true; std::string in; };
Outcome run_forked(const std::function<void()> &f, const ForkOpts &o = ForkOpts());
// A CHECK that failed in the child fails the case; what else did not return is
// reported as such.
void must_return(const Outcome &o, const char *what);
// 1 MB of memory shared with the forked child, for results
extern char *xfer; const size_t xfer_size = 1 << 20;

std::string printable(const std::string &s, size_t max = 80);
std::string printable(const char *s);
// a scratch directory of this process, removed at the end of the run
const std::string &scratch_dir();

typedef void (*PropFn)(Gen &);
struct Target {
	const char *name; PropFn fn; long quick, thorough; double wall; double cpu; bool fuzzable;
	Target(const char *name, long quick, long thorough, PropFn fn,
	       bool fuzzable = true, double wall = 60, double cpu = 20);
};
// every check defines these
extern const char *PROPERTY, *RULE, *LEVEL;
extern const char *ASSUMPTIONS;   // newline separated, may be ""
// finding probes (optional): called once at start-up of a run by the engine
extern void (*known_finding_probe)();
uint64_t mix64(uint64_t x);
