#include "lib.h"
#include <algorithm>
const char *PROPERTY = "C16", *LEVEL = "exploration";
const char *RULE = "A case is a string of up to 300 bytes (letters of a few code groups, all letters, letters with punctuation, arbitrary bytes) whose code from both entry points is compared with a reference written from the documented rules, "
	"then re-computed after random case changes and insertions of non-letters (metamorphic). Non-trivial: at least 4 letters with a repeated or vowel-separated code.";
const char *ASSUMPTIONS = "the C locale is in force, so that only ASCII letters are letters";

static int code(char c)
{
	switch (c | 32) {
	case 'b': case 'f': case 'p': case 'v': return 1;
	case 'c': case 'g': case 'j': case 'k': case 'q': case 's': case 'x': case 'z': return 2;
	case 'd': case 't': return 3;
	case 'l': return 4;
	case 'm': case 'n': return 5;
	case 'r': return 6;
	default: return 0;
	}
}
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static std::string reference(const std::string &s)
{
	std::string r; int prev = 0;
	for (char c : s) {
		if (!letter(c)) continue;
		int k = code(c);
		if (r.empty()) r += (char)(c & ~32);
		else if (k && k != prev) r += (char)('0' + k);
		prev = k;
		if (r.size() == 4) break;
	}
	if (r.empty()) r = "Z";
	r.resize(4, '0'); return r;
}
static std::string run2(const std::string &s)
{
	char *in = (char *)malloc(s.size() + 1); memcpy(in, s.c_str(), s.size() + 1);
	char *out = (char *)malloc(5); memset(out, 'x', 5);          // exactly the documented size
	txt_soundex2(in, out);
	CHECK(s == in, "txt_soundex2 changed its argument");
	CHECK(memchr(out, 0, 5) == out + 4, "txt_soundex2(%s) did not give four characters", printable(s).c_str());
	std::string r = out; free(in); free(out); return r;
}
static void soundex(Gen &g)
{
	static const std::vector<std::string> alphas = {
		"abcdefghijklmnopqrstuvwxyz", "abBpfv", "bBcCsSaAhHwWyY", "rRlLmMnNdDtT", "aeiouyhwAEIOUYHW", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'- .,",
		"bcdlmrBCDLMR0123 ", "@[`{AZazBb", "" };
	std::string s = g.str(g.chance(1, 10) ? 300 : 24, g.pick(alphas));
	s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
	std::string want = reference(s);
	int letters = 0; bool rep = false; int prev = -1; for (char c : s) if (letter(c)) { letters++; if (code(c) == prev || !code(c)) rep = true; prev = code(c); }
	if (letters >= 4 && rep) g.nontrivial();
	if (!letters) g.label("no letters");
	if (want[3] != '0') g.label("three digits");
	if (!s.empty() && !letter(s[0])) g.label("starts with a non-letter");
	g.note("%s -> %s", printable(s).c_str(), want.c_str());
	std::string a = run2(s);
	CHECK(a == want, "txt_soundex2(%s) is %s, expected %s", printable(s).c_str(), a.c_str(), want.c_str());
	const char *b = txt_soundex(s.c_str());
	CHECK(b && want == b, "txt_soundex(%s) is %s, expected %s", printable(s).c_str(), printable(b).c_str(), want.c_str());
	// case and non-letters do not matter
	std::string t;
	for (char c : s) {
		while (g.chance(1, 5)) { char n = (char)g.draw(255); t += n && !letter(n) ? n : '-'; }
		t += letter(c) && g.flip() ? (char)(c ^ 32) : c;
	}
	while (g.chance(1, 5)) t += '\'';
	a = run2(t);
	CHECK(a == want, "soundex of %s is %s but of %s it is %s", printable(s).c_str(), want.c_str(), printable(t).c_str(), a.c_str());
}
static void lengthy(Gen &g)
{
	std::string s; for (Loop l(g, 6, 1); l.more();) { unsigned n = g.flip() ? g.small(2000) : scale(g); char c = g.pick(std::vector<char>{ ' ', '1', 'a', 'B', 'h', '\xe4', 'L', 'w' }); s.append(n, c); s += g.str(2, "bcdlmrBCaeh'"); }
	std::string want = reference(s); g.note("%zu bytes -> %s", s.size(), want.c_str()); std::string a = run2(s); const char *b = txt_soundex(s.c_str()); CHECK(a == want && b && want == b, "the codes of a string of %zu bytes are %s and %s, expected %s", s.size(), a.c_str(), printable(b).c_str(), want.c_str());
}
static Target t2("lengthy", 800, 20000, lengthy, false);
static Target t1("soundex", 2800000, 30000000, soundex);
