#include "lib.h"
const char *PROPERTY = "C14", *LEVEL = "exploration";
const char *RULE = "blocks: 4096 consecutive values below 2^21 per case, against a sieve; values: groups of 32-bit values (random, squares and products of primes of similar size, neighbours of those and of powers of two, the top of the range) "
	"with the primality of each and the next prime from it against a deterministic Miller-Rabin test. Non-trivial: a value above 2^16 that is prime or has no factor below 100.";
const char *ASSUMPTIONS = "unsigned int has 32 bits\nnext prime is only specified while a 32-bit prime exists (arguments up to 4294967291)";

static unsigned mulmod(uint64_t a, uint64_t b, unsigned m) { return a * b % m; }
static unsigned powmod(uint64_t a, unsigned e, unsigned m) { uint64_t r = 1; a %= m; for (; e; e >>= 1, a = mulmod(a, a, m)) if (e & 1) r = mulmod(r, a, m); return r; }
static bool is_prime(unsigned n)
{
	if (n < 2) return false;
	for (unsigned p : { 2u, 3u, 5u, 7u, 11u, 13u }) { if (n == p) return true; if (n % p == 0) return false; }
	unsigned d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, s++;
	for (unsigned a : { 2u, 7u, 61u }) {
		if (a % n == 0) continue;
		uint64_t x = powmod(a, d, n); bool ok = x == 1 || x == n - 1;
		for (int i = 1; i < s && !ok; i++) { x = mulmod(x, x, n); ok = x == n - 1; }
		if (!ok) return false;
	}
	return true;
}
static unsigned next_odd_prime(unsigned n) { if (n < 3) return 3; n |= 1; while (!is_prime(n)) n += 2; return n; }
static const unsigned LAST = 4294967291u;

static void check_value(unsigned v, bool next)
{
	bool want = is_prime(v); int got = prm_is_prime(v);
	CHECK(!!got == want, "prm_is_prime(%u) is %d but it is %sprime", v, got, want ? "" : "not ");
	if (next && v <= LAST) {
		unsigned long w = next_odd_prime(v), n = prm_next_prime(v);
		CHECK(n == w, "prm_next_prime(%u) is %lu, expected %lu", v, n, w);
	}
}
static void values(Gen &g)
{
	for (Loop l(g, 12, 1); l.more();) {
		unsigned v;
		switch (g.draw(5)) {
		case 0: v = g.wide(32); break;
		case 1: { unsigned p = next_odd_prime(g.small(65500)); v = p <= 65521 ? p * p : 9; g.label("square of a prime"); break; }
		case 2: { unsigned p = next_odd_prime(g.small(65000)), q = p; for (int k = g.draw(3) + 1; k; k--) q = next_odd_prime(q + 2); uint64_t w = (uint64_t)p * q; v = w >> 32 ? p : w; g.label("product of near primes"); break; }
		case 3: { unsigned p = next_odd_prime(g.small(3000)); uint64_t m = 0xffffffffu / p; unsigned q = next_odd_prime(g.draw(m > 400 ? m - 400 : m)); uint64_t w = (uint64_t)p * q; v = w >> 32 ? q : w; g.label("semiprime"); break; }
		case 4: v = 0xffffffffu - g.small(100000); g.label("top of the range"); break;
		default: v = next_odd_prime(g.draw(0xff000000u)); g.label("prime"); break;
		}
		if (g.chance(1, 2)) v += g.draw(6) - 3;
		if (v > 65536 && v % 2 && v % 3 && v % 5 && v % 7) g.nontrivial();
		g.note("value %u prime %d", v, is_prime(v));
		check_value(v, true);
	}
}
static void blocks(Gen &g)
{
	static std::vector<bool> comp;
	const unsigned N = (1 << 21) + 70000;
	if (comp.empty()) { comp.assign(N, false); comp[0] = comp[1] = true; for (unsigned i = 2; i * i < N; i++) if (!comp[i]) for (unsigned j = i * i; j < N; j += i) comp[j] = true; }
	unsigned b = g.draw(511) * 4096; g.note("values %u..%u", b, b + 4095); g.nontrivial();
	unsigned nx = b + 4096; while (comp[nx] || nx % 2 == 0) nx++;
	for (unsigned v = b + 4095; ; v--) {
		if (!comp[v] && v % 2) nx = v;
		int got = prm_is_prime(v); CHECK(!!got == !comp[v], "prm_is_prime(%u) is %d but it is %sprime", v, got, comp[v] ? "not " : "");
		if (v % 8 < 3 || v < 64) { unsigned long n = prm_next_prime(v); CHECK(n == nx, "prm_next_prime(%u) is %lu, expected %u", v, n, nx); }
		if (v == b) break;
	}
}
static Target t1("blocks", 6000, 20000, blocks, false);
static Target t2("values", 36000, 900000, values);
