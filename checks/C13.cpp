#include "lib.h"
const char *PROPERTY = "C13", *LEVEL = "exploration";
const char *RULE = "encode/decode: a case is a group of values (edge values, sums of powers of the base, random words) encoded by the library and compared with a reference numeral built digit by digit; "
	"numerals: random digit strings in range, with leading zero digits, decoded from exactly sized buffers; invalid: numerals with one foreign byte, decoded in a child that must abort with a report. "
	"Non-trivial: the value needs at least 3 digits, or the numeral has leading zeros or a foreign byte.";
const char *ASSUMPTIONS = "unsigned long has 64 bits here\nnumerals whose value exceeds an unsigned long and empty numerals are outside the property";

static const char *D26 = "abcdefghijklmnopqrstuvwxyz";
static const char *D64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string reference(unsigned long v, int base)
{
	const char *d = base == 26 ? D26 : D64; std::string s;
	do { s.insert(s.begin(), d[v % base]); v /= base; } while (v);
	return s;
}
static unsigned long value(Gen &g, int base)
{
	switch (g.draw(3)) {
	case 0: return g.wide(64);
	case 1: { unsigned long p = 1; for (int k = g.draw(12); k; k--) { if (p > ~0UL / base) break; p *= base; } return p * g.draw(base - 1) + g.draw(4) - 2; }
	case 2: { unsigned long v = 0; for (int k = g.draw(13); k >= 0; k--) { unsigned long dg = g.weighted({ 3, 1, 2 }); dg = dg == 0 ? 0 : dg == 1 ? base - 1 : g.draw(base - 1);
		if (v > (~0UL - dg) / base) break; v = v * base + dg; } return v; }
	default: return g.small(~0UL);
	}
}
static void roundtrip(Gen &g)
{
	std::map<std::string, unsigned long> seen[2];
	for (Loop l(g, 12, 1); l.more();) {
		int base = g.flip() ? 64 : 26; unsigned long v = value(g, base);
		std::string want = reference(v, base);
		if (want.size() >= 3) g.nontrivial();
		g.note("base %d value %lu expect %s", base, v, want.c_str());
		const char *c = base == 26 ? b26_encode(v) : b64_encode(v);
		CHECK(c, "b%d_encode(%lu) returned NULL", base, v);
		std::string got = c;
		CHECK(got == want, "b%d_encode(%lu) is %s, expected %s", base, v, printable(got).c_str(), want.c_str());
		auto &m = seen[base == 64]; auto it = m.find(got);
		CHECK(it == m.end() || it->second == v, "b%d_encode gives %s for %lu and %lu", base, got.c_str(), v, it->second);
		m[got] = v;
		unsigned long back = base == 26 ? b26_decode(got.c_str()) : b64_decode(got.c_str());
		CHECK(back == v, "b%d_decode(%s) is %lu, expected %lu", base, got.c_str(), back, v);
		// decoding the encoder's own buffer, as a caller would
		c = base == 26 ? b26_encode(v) : b64_encode(v);
		back = base == 26 ? b26_decode(c) : b64_decode(c);
		CHECK(back == v, "b%d_decode(b%d_encode(%lu)) is %lu", base, base, v, back);
	}
}
static std::string numeral(Gen &g, int base, unsigned long *val)
{
	std::string s = reference(*val = value(g, base), base);
	if (g.chance(1, 2)) { unsigned z = g.small(g.chance(1, 20) ? 300 : 12); if (z) { s.insert(0, std::string(z, base == 26 ? 'a' : 'A')); g.label("leading zeros"); g.nontrivial(); } }
	if (s.size() >= 3) g.nontrivial();
	return s;
}
// an exactly sized heap copy, so that any read outside is caught
struct Exact { char *p; Exact(const std::string &s, bool nul) { p = (char *)malloc(s.size() + nul); memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; } ~Exact() { free(p); } };
static void numerals(Gen &g)
{
	for (Loop l(g, 10, 1); l.more();) {
		int base = g.flip() ? 64 : 26; unsigned long v; std::string s = numeral(g, base, &v);
		g.note("base %d numeral %s value %lu", base, s.c_str(), v);
		{
			Exact e(s, true);
			unsigned long r = base == 26 ? b26_decode(e.p) : b64_decode(e.p);
			CHECK(r == v, "b%d_decode(%s) is %lu, expected %lu", base, s.c_str(), r, v);
			CHECK(s == e.p, "b%d_decode changed its argument", base);
		}
		if (base == 64) {
			{ Exact e(s, false); unsigned long r = b64_decode_buf(e.p, s.size()); CHECK(r == v, "b64_decode_buf(%s, %zu) is %lu, expected %lu", s.c_str(), s.size(), r, v); }
			// more digits, or anything else, behind the given length
			std::string t = s; unsigned n = g.draw(5) + 1;
			for (unsigned i = 0; i < n; i++) t += g.flip() ? D64[g.draw(63)] : (char)g.draw(255);
			Exact e(t, true); unsigned long r = b64_decode_buf(e.p, s.size());
			CHECK(r == v, "b64_decode_buf(%s, %zu) is %lu, expected %lu", printable(t).c_str(), s.size(), r, v);
		}
	}
}
static void invalid(Gen &g)
{
	int base = g.flip() ? 64 : 26; unsigned long v; std::string s = numeral(g, base, &v); if (s.size() > 10) s.resize(10);
	bool buf = base == 64 && g.flip();
	std::string alpha = base == 26 ? std::string(D26) : std::string(D64);
	std::string bad; for (int c = buf ? 0 : 1; c < 256; c++) if (alpha.find((char)c) == std::string::npos) bad += (char)c;
	// neighbours of the alphabet first
	static const std::string near = "@[`{-.:,*/0AZ";
	char c; do c = g.flip() ? bad[g.draw(bad.size() - 1)] : near[g.draw(near.size() - 1)]; while (bad.find(c) == std::string::npos && ((c = bad[0]), false));
	if (bad.find(c) == std::string::npos) c = bad.back();
	size_t at = g.draw(s.size()); s.insert(at, 1, c);
	g.nontrivial(); g.note("base %d%s foreign byte 0x%02x in %s", base, buf ? " buffer" : "", (unsigned char)c, printable(s).c_str());
	g.label(base == 26 ? "base 26" : buf ? "base 64 buffer" : "base 64");
	Outcome o = run_forked([&] { if (buf) { Exact e(s, false); b64_decode_buf(e.p, s.size()); } else { Exact e(s, true); if (base == 26) b26_decode(e.p); else b64_decode(e.p); } });
	CHECK(o.aborted() && !o.err.empty(), "b%d_decode of %s should be diagnosed and abort: it %s", base, printable(s).c_str(), o.str().c_str());
}
static Target t1("round trip", 1800000, 12000000, roundtrip);
static Target t2("numerals", 1200000, 8000000, numerals);
static Target t3("invalid", 4000, 80000, invalid, false);
