#include "buf.h"
const char *PROPERTY = "C12", *LEVEL = "exploration";
const char *RULE = "strings: any string over an alphabet rich in quotes, backslashes and blanks (and arbitrary bytes), in a buffer that ends at its terminator, with each of the four flag combinations, is compared word by word with a reference tokeniser written from the documented rules. "
	"words: a list of words (any bytes but NUL, empty ones included) is written with a random valid quoting of every piece (bare, escaped, single, double, adjacent pieces, empty pieces) and random white space, and must tokenise back to those words. short: all strings up to length 6 over {a, blank, tab, backslash, both quotes} are enumerated by index. Non-trivial: a quote or a backslash is active in the string.";
const char *ASSUMPTIONS = "";
static bool space(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\n'; }
static std::vector<std::string> model(const std::string &s, int fl)
{
	std::vector<std::string> r; std::string cur; bool have = false; size_t i = 0, n = s.size();
	while (i < n) {
		char c = s[i];
		if (space(c)) { if (have) r.push_back(cur); cur.clear(); have = false; i++; }
		else if (!(fl & ARG_NO_QUOTE) && (c == '"' || c == '\'')) { have = true; for (i++; i < n && s[i] != c; i++) cur += s[i]; i++; }
		else if (!(fl & ARG_NO_ESCAPE) && c == '\\') { have = true; if (i + 1 < n) cur += s[i + 1]; i += 2; }
		else { have = true; cur += c; i++; }
	}
	if (have) r.push_back(cur);
	return r;
}
static std::string show(const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += "[" + printable(x) + "]"; return r; }
static std::vector<std::string> tokenise(const std::string &s, int fl)
{
	Buf *b = new Buf(s); arg_List a = arg_argify(*b, fl); delete b;
	CHECK(a, "arg_argify returned NULL"); int c; char **v; arg_get_vector(a, &c, &v); CHECK(c == arg_count(a) && !v[c], "the vector does not end with NULL");
	std::vector<std::string> r; for (int i = 0; i < c; i++) { CHECK(v[i] && v[i] == arg_get(a, i), "item %d is inconsistent", i); r.push_back(v[i]); }
	arg_destroy(a); return r;
}
static void same(const std::string &s, int fl, const std::vector<std::string> &want)
{
	auto r = tokenise(s, fl); CHECK(r == want, "flags %d: \"%s\" gives %zu words %s, expected %zu words %s", fl, printable(s, 200).c_str(), r.size(), show(r).c_str(), want.size(), show(want).c_str());
}
static void active(Gen &g, const std::string &s, int fl) { if ((!(fl & ARG_NO_QUOTE) && s.find_first_of("'\"") != std::string::npos) || (!(fl & ARG_NO_ESCAPE) && s.find('\\') != std::string::npos)) g.nontrivial(); }
static void strings(Gen &g)
{
	int fl = g.draw(2) == 0 ? 0 : (int)g.draw(3); std::string s;
	switch (g.draw(3)) { case 0: s = g.str(12, "ab \\'\""); break; case 1: s = g.str(40, "ab \t\n\v\r\\'\"\f%"); break; case 2: s = g.str(30, ""); for (auto &c : s) if (!c) c = '"'; break; default: { std::string u = g.str(6, "a \\'\""); unsigned n = g.small(400); for (unsigned i = 0; i < n; i++) { s += u; if (g.chance(1, 9)) s += g.str(3, "x \\'\""); } } }
	g.note("flags %d \"%s\"", fl, printable(s, 200).c_str()); active(g, s, fl); auto w = model(s, fl); g.label(w.empty() ? "no word" : w.size() == 1 ? "one word" : "several words");
	same(s, fl, w);
}
static std::string quote(Gen &g, const std::string &w, int fl)
{
	std::string o; size_t i = 0; bool any = false;
	auto bare = [&](char c) { return !space(c) && ((fl & ARG_NO_QUOTE) || (c != '"' && c != '\'')) && ((fl & ARG_NO_ESCAPE) || c != '\\'); };
	while (i < w.size()) {
		unsigned k = g.draw(4); char q = k == 1 ? '\'' : '"';
		if (k == 0 && bare(w[i])) { size_t n = 1 + g.draw(4); while (i < w.size() && n-- && bare(w[i])) o += w[i++]; any = true; }
		else if ((k == 1 || k == 2) && !(fl & ARG_NO_QUOTE)) { size_t n = g.draw(8); o += q; while (i < w.size() && n-- && w[i] != q) o += w[i++]; o += q; any = true; }
		else if (!(fl & ARG_NO_ESCAPE)) { o += '\\'; o += w[i++]; any = true; }
		else if (!(fl & ARG_NO_QUOTE)) { q = w[i] == '\'' ? '"' : '\''; o += q; o += w[i++]; o += q; any = true; }
		else o += w[i++], any = true;
	}
	if (!any || (!(fl & ARG_NO_QUOTE) && g.chance(1, 8))) o += g.flip() ? "''" : "\"\"";
	return o;
}
static void words(Gen &g)
{
	int fl = (int)g.draw(3); if (fl == (ARG_NO_QUOTE | ARG_NO_ESCAPE) && g.flip()) fl = 0;
	std::vector<std::string> w; std::string s;
	auto ws = [&](unsigned min) { std::string r; unsigned n = min + g.small(4); while (n--) r += " \t\r\v\n"[g.draw(4)]; return r; };
	s = ws(0);
	for (Loop l(g, g.chance(1, 20) ? 200 : 8); l.more();) {
		std::string x; unsigned kind = g.draw(2); x = kind == 0 ? g.str(5, "ab'\"\\ ") : kind == 1 ? g.str(10, "") : content(g); if (x.size() > 2000) x.resize(2000); for (auto &c : x) if (!c) c = '\\';
		std::string y; for (char c : x) { if (space(c) && (fl & ARG_NO_QUOTE) && (fl & ARG_NO_ESCAPE)) continue; y += c; } x = y;
		if (x.empty() && (fl & ARG_NO_QUOTE)) continue;
		if (!w.empty()) s += ws(1);
		w.push_back(x); s += quote(g, x, fl);
	}
	s += ws(0); active(g, s, fl); g.note("flags %d \"%s\"", fl, printable(s, 200).c_str()); g.label(w.size() > 8 ? "more than 8 words" : w.empty() ? "no word" : "words");
	same(s, fl, w);
}
static void brief(Gen &g)
{
	// 6^0 + ... + 6^6 strings times 4 flag combinations, a stretch of them per case
	static const long total = (55987L) * 4; static const char A[] = "a \t\\'\"";
	long at = g.draw(total - 1); int n = g.mode == Gen::BYTES ? 50 : 400;
	for (int k = 0; k < n; k++) { long v = (at + k) % total; int fl = v & 3; v >>= 2; std::string s; for (long span = 1; v >= span; span *= 6) { v -= span; s += '?'; } for (auto &c : s) { c = A[v % 6]; v /= 6; } active(g, s, fl); same(s, fl, model(s, fl)); }
	g.note("400 short strings from number %ld", at);
}
static Target t1("strings", 1200000, 30000000, strings);
// Many words, or long ones.
static void at_scale(Gen &g)
{
	reset_lib(); unsigned n = scale(g), kind = g.draw(2); std::string s; std::vector<std::string> w; uint64_t r = g.draw(~0ull); if (kind == 2) n = n % 12000 + 1; g.note("%u, kind %u", n, kind);
	if (kind == 0) for (unsigned i = 0; i < n; i++) { unsigned k = mix64(r + i) % 7; std::string x = std::to_string(i % 977); w.push_back(k == 6 ? "" : k == 5 ? x + " " : x); s += k == 0 ? x : k == 1 ? "\"" + x + "\"" : k == 2 ? "'" + x + "'" : k == 3 ? "\\" + x : k == 4 ? x + "''" : k == 5 ? "'" + x + " '" : "''"; s += " \t\n"[k % 3]; }
	else if (kind == 1) { for (unsigned j = 0; j < 3; j++) { std::string x; for (unsigned i = 0; i < n; i++) x += (char)('a' + (i >> j) % 26); w.push_back(x); s += j == 1 ? "'" + x + "' " : j == 2 ? "\\" + x : x + "\n"; } s += std::string(n, ' '); w.push_back("x"); s += "x"; }
	else { std::string x; for (unsigned i = 0; i < n; i++) { char c = 'a' + i % 26; x += c; switch (mix64(r + i) % 4) { case 0: s += c; break; case 1: s += '\\'; s += c; break; case 2: s += '\''; s += c; s += '\''; break; default: s += '"'; s += c; s += '"'; } } w.push_back(x); s += " y"; w.push_back("y"); }
	auto t = tokenise(s, 0); CHECK(t.size() == w.size(), "%zu words were made of %zu", t.size(), w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(t[i] == w[i], "word %zu of %zu is \"%s\" (%zu bytes), expected \"%s\" (%zu bytes)", i, w.size(), printable(t[i]).c_str(), t[i].size(), printable(w[i]).c_str(), w[i].size());
}
static Target t4("at scale", 160, 4000, at_scale, false);
static Target t2("words", 600000, 15000000, words);
static Target t3("short", 4000, 40000, brief);
