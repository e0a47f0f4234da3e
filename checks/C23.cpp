#include <fcntl.h>
#include <unistd.h>
#include "buf.h"
const char *PROPERTY = "C23", *LEVEL = "exploration";
const char *RULE = "A case is a history of stored lines (any text, tabs, with and without newline, exact-length source), file names, renumbering, cpp line markers in their usual forms, advances, tokens, and destruction and re-creation of the source manager; every token is compared with the position the model had when it was taken, at random points and at the end, and its printed line, message, error with caret marker and parser message (composed of text, character constants and token names, some registered) are compared byte by byte. "
	"shapes: parser messages of any shape are printed without harm between the right first and last lines. with debugging: the histories with the debugging output of the module on. stdout: printing with no stream. refused: use before creation and double creation. Non-trivial: a token was examined after later lines, a renumbering or another file.";
const char *ASSUMPTIONS = "a line is stored before the first token is taken\nline texts and messages contain no null bytes\nline numbers of markers are positive";
struct Tok { src_Type t; bool hasfile; std::string file; int line, off, len; size_t idx; };
static std::map<std::string, std::string> conc;
static std::string capture(const std::function<void(FILE *)> &f) { char *t = nullptr; size_t n = 0; FILE *s = open_memstream(&t, &n); f(s); fclose(s); std::string r(t, n); free(t); return r; }
static std::string pos(const Tok *t) { return t ? (t->hasfile ? t->file : "(null)") + ":" + std::to_string(t->line) + ": " : "?:?: "; }
static std::string show_line(const Tok *t, const std::vector<std::string> &lines) { return t ? pos(t) + lines[t->idx] : "?:?: <source line not available>\n"; }
static std::string marker(const Tok *t, const std::vector<std::string> &lines) { return show_line(t, lines) + pos(t) + (t ? std::string(t->off, ' ') + std::string(t->len, '^') : "") + "\n"; }
static void eq(const std::string &got, const std::string &want, const char *what) { size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++; CHECK(got == want, "%s: at byte %zu \"%s\", expected \"%s\"", what, d, printable(got.substr(d > 30 ? d - 30 : 0, 160), 160).c_str(), printable(want.substr(d > 30 ? d - 30 : 0, 160), 160).c_str()); }
static std::string no_nul(std::string s) { for (auto &c : s) if (!c) c = '0'; return s; }
static std::string symbol(Gen &g) { std::string s = "T_"; if (g.chance(1, 10)) { size_t n = g.small(3000); for (size_t i = 0; i < n; i++) s += 'A' + i % 26; } else s += g.str(5, "ABX_1 "); return s; }
// a parser message and what should be printed for it
static void yyerror(Gen &g, std::string &m, std::string &want)
{
	for (Loop l(g, 6, 1); l.more();) switch (g.weighted({ 4, 3, 4, 2, 1 })) {
	case 0: { std::string s = no_nul(g.chance(1, 8) ? content(g) : g.str(10, "")); for (auto &c : s) if (c == '`') c = '\''; m += s; want += s; break; }
	case 1: { char c = (char)(1 + g.draw(254)); m += std::string("``") + c + "''"; want += std::string("`") + c + "'"; break; }
	case 2: { std::string s; if (!conc.empty() && g.flip()) { auto i = conc.begin(); std::advance(i, g.draw(conc.size() - 1)); s = i->first; } else s = symbol(g); m += "`" + s + "'"; want += "`" + (conc.count(s) ? conc[s] : s) + "'"; break; }
	case 3: { std::string s = g.str(6, "abT"); m += "parse error, expecting `x" + s + "'"; want += "parse error, expecting `x" + s + "'"; break; }
	default: m += "100%s %n"; want += "100%s %n"; }
}
static void check(const Tok *t, const std::vector<std::string> &lines, Gen &g)
{
	src_Type s = t ? t->t : nullptr;
	const char *f = src_filename(s); if (t && !t->hasfile) CHECK(!f, "the file of a token taken without file is \"%s\"", printable(f).c_str()); else { std::string w = t ? t->file : ""; CHECK(f && w == f, "the file of the token is %s, expected \"%s\"", printable(f).c_str(), printable(w).c_str()); }
	int n = src_linenumber(s), o = src_offset(s), l = src_length(s); CHECK(n == (t ? t->line : 0) && o == (t ? t->off : 0) && l == (t ? t->len : 0), "the token is at line %d, offset %d, length %d, expected %d, %d, %d", n, o, l, t ? t->line : 0, t ? t->off : 0, t ? t->len : 0);
	const char *x = src_source_line(s); CHECK(x && (t ? lines[t->idx] : "") == x, "the line of the token is %s, expected \"%s\"", printable(x).c_str(), t ? printable(lines[t->idx]).c_str() : "");
	switch (g.draw(4)) {
	case 0: eq(capture([&](FILE *h) { src_print_line(h, s); }), show_line(t, lines), "src_print_line"); break;
	case 1: { std::string m = no_nul(content(g)); eq(capture([&](FILE *h) { src_print_message(h, s, "%s %d", m.c_str(), n); }), pos(t) + m + " " + std::to_string(n) + "\n", "src_print_message"); std::string f; for (char c : m) { f += c; if (c == '%') f += c; } eq(capture([&](FILE *h) { src_print_message(h, s, f.c_str()); }), pos(t) + m + "\n", "src_print_message with a format alone"); eq(capture([&](FILE *h) { src_print_message(h, s, nullptr); }), "", "src_print_message without a format"); break; }
	case 2: { std::string m = no_nul(content(g)); eq(capture([&](FILE *h) { src_print_error(h, s, "%s/%d", m.c_str(), n); }), pos(t) + m + "/" + std::to_string(n) + "\n" + marker(t, lines), "src_print_error"); std::string f; for (char c : m) { f += c; if (c == '%') f += c; } eq(capture([&](FILE *h) { src_print_error(h, s, f.c_str()); }), pos(t) + m + "\n" + marker(t, lines), "src_print_error with a format alone"); break; }
	case 3: eq(capture([&](FILE *h) { const char *e = ""; src_print_error(h, s, e); }), pos(t) + "\n" + marker(t, lines), "src_print_error with an empty format"); eq(capture([&](FILE *h) { const char *e = ""; src_print_message(h, s, e); }), pos(t) + "\n", "src_print_message with an empty format"); eq(capture([&](FILE *h) { src_print_error(h, s, nullptr); }), marker(t, lines), "src_print_error without a format"); break;
	default: { std::string m, w; yyerror(g, m, w); Buf b(m); eq(capture([&](FILE *h) { src_parse_error(h, s, b); }), pos(t) + w + "\n" + marker(t, lines), "src_parse_error"); } }
}
static void concretes(Gen &g) { conc.clear(); for (Loop l(g, 6); l.more();) { std::string s = symbol(g), c = no_nul(content(g)); Buf a(s), b(c); prs_register_concrete(a, b); if (!conc.count(s)) conc[s] = c; }  /* the first one stays */ for (auto &x : conc) { const char *r = prs_concrete(x.first.c_str()); CHECK(r && x.second == r, "prs_concrete(\"%s\") is %s, expected \"%s\"", printable(x.first).c_str(), printable(r).c_str(), printable(x.second).c_str()); } CHECK(!prs_concrete("T_NOT"), "an unregistered token name has a readable form"); }
static std::string line_text(Gen &g) { std::string s = g.flip() ? g.str(30, "ab \t(){}\"") : no_nul(content(g)); if (g.chance(3, 4)) s += "\n"; return s; }
static bool debugging = false;
static void history(Gen &g)
{
	reset_lib(); if (debugging) dbg_set_flag(MAA_SRC); if (g.chance(1, 3)) concretes(g); else conc.clear();
	std::vector<Tok> toks; std::vector<std::string> lines; std::vector<const char *> at; long bytes = 0; bool hasfile = false; std::string file; int line = 0, off = 0; bool created = false, changed = false;
	auto store = [&](const std::string &s) { Buf b(s, false); const char *r = src_line(b, (int)s.size()); created = true; std::string w = s; for (auto &c : w) if (c == '\t') c = ' '; CHECK(r && w == r, "src_line returned %s, expected \"%s\"", printable(r).c_str(), printable(w).c_str()); lines.push_back(w); at.push_back(r); bytes += s.size() + 1; line++; off = 0; if (!toks.empty()) changed = true; };
	auto stats = [&] { src_Stats s = src_get_stats(); CHECK(s->lines_used == (int)lines.size() && s->lines_bytes == bytes && s->tokens_total == (int)toks.size(), "the statistics report %d lines, %d bytes, %d tokens; expected %zu, %ld, %zu", s->lines_used, s->lines_bytes, s->tokens_total, lines.size(), bytes, toks.size()); CHECK(s->lines_allocated >= s->lines_used && s->tokens_reused == 0, "the statistics report %d lines allocated, %d tokens reused", s->lines_allocated, s->tokens_reused);
		std::string p = capture([&](FILE *h) { src_print_stats(h); }); char e[100]; snprintf(e, sizeof e, "   %zu lines using %ld bytes (", lines.size(), bytes); CHECK(p.find(e) != std::string::npos, "the printed statistics are \"%s\"", printable(p, 200).c_str()); snprintf(e, sizeof e, "   %zu tokens using %ld bytes (0 reused)", toks.size(), (long)toks.size() * s->tokens_size); CHECK(p.find(e) != std::string::npos, "the printed statistics are \"%s\"", printable(p, 200).c_str()); xfree(s); };
	for (Loop l(g, 80, 1); l.more();) switch (g.weighted({ 8, 2, 2, 3, 10, 3, 3, 1, 1, 1 })) {
	case 0: { std::string s = line_text(g); g.note("line \"%s\"", printable(s).c_str()); store(s); break; }
	case 1: { file = no_nul(g.flip() ? g.str(5, "ab./") : content(g)); hasfile = true; Buf b(file); g.note("file \"%s\"", printable(file).c_str()); src_new_file(b); if (!toks.empty()) changed = true; break; }
	case 2: line = g.chance(1, 5) ? 0x7ffffff0 : (int)g.small(100000); g.note("line number %d", line); src_new_line(line); if (!toks.empty()) changed = true; break;
	case 3: { int n = 1 + (int)(g.flip() ? g.small(20) : g.draw(2000000)); std::string f = g.flip() ? g.str(8, "ab./ 0") : no_nul(content(g)); for (auto &c : f) if (c == '"') c = '_'; if (f.size() > 30000) f.resize(30000); unsigned form = g.draw(4); bool named = true; std::string m = g.flip() ? "# " : "#line "; m += (g.chance(1, 6) ? " " : "") + std::to_string(n);
		switch (form) { case 0: m += " \"" + f + "\""; break; case 1: m += " \"" + f + "\" 1"; break; case 2: m += "\t\"" + f + "\" 2 3 4\n"; break; case 3: named = false; if (g.flip()) m += "\n"; break; default: f = "plain.c"; m += " plain.c"; if (g.flip()) m += "  \n"; }
		Buf b(m, false); g.note("marker \"%s\"", printable(m).c_str()); g.label("cpp marker"); src_cpp_line(b, (int)m.size()); line = n - 1; if (named) { file = f; hasfile = true; } if (!toks.empty()) changed = true; break; }
	case 4: if (lines.empty()) break; for (unsigned k = 1 + g.small(5); k--;) { Tok t; t.len = (int)g.small(40); t.hasfile = hasfile; t.file = file; t.line = line; t.off = off; t.idx = lines.size() - 1; t.t = src_get(t.len); g.note("token of %d at line %d, offset %d", t.len, line, off); CHECK(t.t, "src_get returned NULL"); off += t.len; for (size_t i = toks.size() > 3 ? toks.size() - 3 : 0; i < toks.size(); i++) CHECK(toks[i].t != t.t, "two tokens are the same object"); toks.push_back(t); check(&toks.back(), lines, g); } break;
	case 5: { int k = (int)g.small(30); g.note("advance %d", k); src_advance(k); off += k; break; }
	case 6: if (!toks.empty()) { size_t i = g.flip() ? 0 : g.draw(toks.size() - 1); if (changed) { g.nontrivial(); g.label("token examined later"); } check(&toks[i], lines, g); } if (created) check(nullptr, lines, g); break;
	case 7: if (created || g.flip()) stats(); break;
	case 8: { unsigned n = g.draw(1500), tk = g.draw(1); g.note("%u lines", n); if (lines.size() + n > 1000) g.label("more than 1000 lines"); for (unsigned i = 0; i < n; i++) { store("l\t" + std::to_string(i) + "\n"); if (tk && i % 7 == 0) { Tok t{ nullptr, hasfile, file, line, off, 2, lines.size() - 1 }; t.t = src_get(2); off += 2; toks.push_back(t); } } break; }
	default: if (!g.chance(1, 3)) break; g.note("destroy%s", created ? "" : " (not created)"); g.label("destroyed"); src_destroy(); if (g.flip()) src_destroy(); toks.clear(); lines.clear(); at.clear(); bytes = 0; hasfile = false; file.clear(); line = off = 0; created = changed = false; if (g.flip()) { src_create(); created = true; } }
	for (size_t i = 0; i < lines.size(); i++) CHECK(lines[i] == at[i], "stored line %zu changed", i);
	for (auto &t : toks) check(&t, lines, g);
	if (created) stats(); src_destroy(); _prs_shutdown(); str_destroy();
}
// the same with the debugging output of the module on
static void with_debugging(Gen &g)
{
	g.nontrivial(); Gen *p = &g; Outcome o = run_forked([p] { debugging = true; int f = open("/dev/null", O_WRONLY); dup2(f, 1); history(*p); }); must_return(o, "a history with debugging output");
}
static void shapes(Gen &g)
{
	reset_lib(); concretes(g); src_new_file("f"); src_line("text\n", 5); src_advance(1); src_Type t = g.chance(1, 6) ? nullptr : src_get(2); g.nontrivial();
	std::string m; for (Loop l(g, 30); l.more();) { static const char *p[] = { "`", "'", "``", "''", "T_", "`T_", "`T_A'", "``'", "```", "a", "T", "_", " ", "\n" }; if (g.chance(1, 8) && !conc.empty()) m += conc.begin()->first; else m += p[g.draw(13)]; }
	Buf b(m); g.note("message \"%s\"", printable(m).c_str()); bool null = g.chance(1, 20);
	std::string r = capture([&](FILE *h) { src_parse_error(h, t, null ? nullptr : (const char *)b); }), head = t ? "f:1: " : "?:?: ", tail = t ? "\nf:1: text\nf:1:  ^^\n" : "\n?:?: <source line not available>\n?:?: \n";
	CHECK(r.size() >= head.size() + tail.size() && r.compare(0, head.size(), head) == 0 && r.compare(r.size() - tail.size(), tail.size(), tail) == 0, "the message \"%s\" is printed as \"%s\"", printable(m).c_str(), printable(r, 200).c_str());
	if (m.find('`') == std::string::npos && !null) eq(r, head + m + tail, "a message without quotes");
}
static void to_stdout(Gen &g)
{
	reset_lib(); unsigned k = g.draw(4); std::string m = no_nul(content(g)); bool null = g.chance(1, 4); g.note("print %u", k); g.nontrivial();
	src_new_file("f"); src_line("text\n", 5); src_Type t0 = src_get(4); (void)t0; src_Type t = null ? nullptr : t0;
	auto print = [&](FILE *f) { switch (k) { case 0: src_print_line(f, t); break; case 1: src_print_message(f, t, "%s", m.c_str()); break; case 2: src_print_error(f, t, "%s", m.c_str()); break; case 3: src_parse_error(f, t, m.c_str()); break; default: src_print_stats(f); } };
	std::string want = capture(print); Outcome o = run_forked([&] { printf("before "); print(nullptr); }); must_return(o, "printing without a stream"); eq(o.out, "before " + want, "standard output");
}
static void refused(Gen &g)
{
	reset_lib(); unsigned k = g.draw(6); bool again = g.flip(); if (again || k == 0) { src_create(); } src_Type t = nullptr; if (again && k) { src_line("x", 1); t = src_get(1); src_destroy(); (void)t; } g.note("case %u%s", k, again ? " after destruction" : ""); g.nontrivial();
	Outcome o = run_forked([&] { switch (k) { case 0: src_create(); break; case 1: src_get(1); break; case 2: src_filename(nullptr); break; case 3: src_linenumber(nullptr); break; case 4: src_offset(nullptr); break; case 5: src_length(nullptr); break; default: src_source_line(nullptr); } });
	CHECK(o.exit1() && !o.err.empty(), "misuse %u of the source manager should be a fatal error: it %s", k, o.str().c_str()); src_destroy();
}
// Many lines, far columns, long tokens, many tokens.
static void at_scale(Gen &g)
{
	reset_lib(); conc.clear(); unsigned n = scale(g), kind = g.draw(2); std::vector<Tok> toks; std::vector<std::string> lines; int line = 0, off = 0; src_new_file("f"); g.note("%u, kind %u", n, kind);
	auto token = [&](int len) { Tok t{ nullptr, true, "f", line, off, len, lines.size() - 1 }; t.t = src_get(len); off += len; toks.push_back(t); };
	auto store = [&](const std::string &s) { src_line(s.data(), (int)s.size()); lines.push_back(s); line++; off = 0; };
	if (kind == 0) { for (unsigned i = 0; i < n; i++) { store("line " + std::to_string(i) + "\n"); if (i % 9973 == 0 || i + 3 > n || (i & 0x7fff) < 2) token(1 + i % 5); } }
	else if (kind == 1) { std::string s; for (unsigned i = 0; i < n; i++) s += "abcdefg "[i % 8]; store(s + "\n"); while (off < (int)n) { int l = g.chance(1, 4) ? 1 + (int)g.draw(70000) : 1 + (int)g.draw(600); if (l > (int)n - off) l = n - off; if (g.chance(1, 4)) { src_advance(l); off += l; } else token(l); if (toks.size() > 300) { src_advance(n - off); off = n; } } }
	else { store("tokens\n"); for (unsigned i = 0; i < n; i++) { token(i % 3); if (i % 30000 == 29999) store("more tokens\n"); } }
	src_Stats s = src_get_stats(); CHECK(s->lines_used == (int)lines.size() && s->tokens_total == (int)toks.size(), "the statistics report %d lines and %d tokens, expected %zu and %zu", s->lines_used, s->tokens_total, lines.size(), toks.size()); xfree(s);
	size_t step = toks.size() > 400 ? toks.size() / 200 : 1; for (size_t i = 0; i < toks.size(); i++) if (i % step == 0 || i + 2 > toks.size()) check(&toks[i], lines, g); else CHECK(src_offset(toks[i].t) == toks[i].off && src_length(toks[i].t) == toks[i].len && src_linenumber(toks[i].t) == toks[i].line, "token %zu is at line %d, offset %d, length %d, expected %d, %d, %d", i, src_linenumber(toks[i].t), src_offset(toks[i].t), src_length(toks[i].t), toks[i].line, toks[i].off, toks[i].len);
	src_destroy(); _prs_shutdown(); str_destroy();
}
// lines that do not fit a stack of the usual 8 MB
static void huge(Gen &g)
{
	reset_lib(); conc.clear(); g.nontrivial(); size_t n = 8400000 + g.draw(1000000); bool cpp = g.flip(); g.note("a %s of %zu bytes", cpp ? "marker" : "line", n); std::vector<std::string> lines; Tok t{ nullptr, true, "f", 0, 0, 3, 0 };
	if (cpp) { std::string m = "# 12 \"f\""; bool front = g.flip(); m.insert(front ? 1 : m.size(), n, ' '); if (!front && g.flip()) m += "2\n"; Buf b(m, false); src_cpp_line(b, (int)m.size()); t.line = 11; } else src_new_file("f");
	std::string s = cpp ? "abc\n" : std::string(n, 'x'); Buf b(s, false); const char *r = src_line(b, (int)s.size()); CHECK(r && s == r, "src_line returned another line"); lines.push_back(s); t.line++; t.t = src_get(3);
	check(&t, lines, g); CHECK(!strcmp(src_filename(t.t), "f") && src_linenumber(t.t) == t.line && src_offset(t.t) == 0 && src_length(t.t) == 3, "the token is at \"%s\" line %d offset %d length %d", printable(src_filename(t.t)).c_str(), src_linenumber(t.t), src_offset(t.t), src_length(t.t));
	src_destroy(); str_destroy();
}
static Target t7("huge", 12, 200, huge, false);
static Target t5("at scale", 80, 2000, at_scale, false);
static Target t6("with debugging", 2000, 60000, with_debugging, false);
static Target t1("history", 60000, 3000000, history);
static Target t2("shapes", 100000, 5000000, shapes);
static Target t3("stdout", 2000, 20000, to_stdout, false);
static Target t4("refused", 1500, 10000, refused, false);
