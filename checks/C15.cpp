#include "lib.h"
const char *PROPERTY = "C15", *LEVEL = "exploration";
const char *RULE = "A case is a word (random, sparse, dense, one-bit and boundary patterns) and a sequence of bit numbers 0..63 with set, clear and test operations, "
	"compared with a model of 64 independent booleans after every step, neighbours of the word included. Non-trivial: an operation addressed bit 31 or above "
	"or the word had at least two bits set before it.";
const char *ASSUMPTIONS = "unsigned long has 64 bits here";

static const int W = sizeof(unsigned long) * 8;

static void ops(Gen &g)
{
	unsigned long mem[3]; for (auto &m : mem) m = g.wide(64);
	bool b[3][64]; for (int j = 0; j < 3; j++) for (int i = 0; i < W; i++) b[j][i] = mem[j] >> i & 1;
	g.note("words %lx [%lx] %lx", mem[0], mem[1], mem[2]);
	auto verify = [&](const char *what, int bit) {
		for (int j = 0; j < 3; j++) {
			unsigned long want = 0; int n = 0;
			for (int i = W - 1; i >= 0; i--) { want = want << 1 | b[j][i]; n += b[j][i]; }
			CHECK(mem[j] == want, "after %s(%d) word %d is %lx, expected %lx", what, bit, j - 1, mem[j], want);
			int c = bit_cnt(&mem[j]);
			CHECK(c == n, "bit_cnt of %lx is %d, expected %d", mem[j], c, n);
			CHECK(mem[j] == want, "bit_cnt changed %lx to %lx", want, mem[j]);
		}
	};
	verify("nothing", 0);
	for (Loop l(g, 40, 1); l.more();) {
		int bit = g.flip() ? g.draw(W - 1) : (int)g.pick(std::vector<int>{ 0, 1, 15, 16, 30, 31, 32, 33, 47, 62, 63 });
		int n = 0; for (int i = 0; i < W; i++) n += b[1][i];
		if (bit >= 31 || n >= 2) g.nontrivial();
		switch (g.draw(2)) {
		case 0: g.label("set"); bit_set(&mem[1], bit); b[1][bit] = true; g.note("set %d", bit); verify("bit_set", bit); break;
		case 1: g.label("clr"); bit_clr(&mem[1], bit); b[1][bit] = false; g.note("clr %d", bit); verify("bit_clr", bit); break;
		default: g.note("test %d", bit);
		}
		if (bit >= 32) g.label("bit 32 or above");
		for (int i = 0; i < W; i++) {
			int t = bit_tst(&mem[1], i);
			CHECK(!!t == b[1][i], "bit_tst(%lx, %d) is %d", mem[1], i, t);
		}
		verify("bit_tst", bit);
	}
}
static Target t1("operations", 480000, 3000000, ops);
