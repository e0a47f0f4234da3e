// What a log destination should contain.
#pragma once
#include "lib.h"
#include <time.h>
#include <unistd.h>
struct Rec { time_t t; bool has_routine; std::string routine, msg; std::set<std::string> idents; bool full; pid_t pid = 0; };   // pid: if another process logged it
inline std::string short_host() { return std::string(vf_host).substr(0, strcspn(vf_host, ".")); }
// Does record r stand at s[at]?  Returns its length or 0.  The message may be
// cut off after 4095 bytes or later.
inline size_t match_text(const std::string &s, size_t at, const std::string &msg, bool newline)
{
	size_t n = 0; while (n < msg.size() && at + n < s.size() && s[at + n] == msg[n]) n++;
	if (n == msg.size() || n >= 4095) {
		if (!newline) return n ? n : (size_t)-1;
		// the cut may be anywhere from 4095 on
		for (size_t k = n;; k--) { if (at + k < s.size() && s[at + k] == '\n' && (k == msg.size() || k >= 4095)) return k + 1; if (k <= 4095 || k == 0) break; }
	}
	return 0;
}
inline size_t match_line(const std::string &s, size_t at, const Rec &r, pid_t pid)
{
	std::vector<std::string> heads;
	if (!r.full) heads.push_back("");
	else { char c[64]; ctime_r(&r.t, c); for (auto &i : r.idents) heads.push_back(std::string(c, 24) + " " + short_host() + " " + i + "[" + std::to_string((long)(r.pid ? r.pid : pid)) + "]: "); }
	for (auto &h : heads) {
		std::string p = h + (r.has_routine ? "(" + r.routine + ") " : "");
		if (s.compare(at, p.size(), p)) continue;
		size_t k = match_text(s, at + p.size(), r.msg, true); if (k) return p.size() + k;
	}
	return 0;
}
inline void match_log(const std::string &s, size_t at, const std::vector<Rec> &v, pid_t pid, const char *what)
{
	for (size_t i = 0; i < v.size(); i++) {
		size_t k = match_line(s, at, v[i], pid); char c[64]; ctime_r(&v[i].t, c); c[24] = 0;
		CHECK(k, "%s: record %zu of %zu (time %s, ident %s, %s routine \"%s\", message of %zu bytes \"%s\") expected, but the text there is \"%s\"", what, i + 1, v.size(), c, v[i].idents.empty() ? "" : v[i].idents.begin()->c_str(), v[i].full ? "full," : "not full,", v[i].has_routine ? printable(v[i].routine).c_str() : "(none)", v[i].msg.size(), printable(v[i].msg, 60).c_str(), printable(s.substr(std::min(at, s.size()), 200), 200).c_str());
		at += k;
	}
	CHECK(at == s.size(), "%s: after the expected %zu records there is \"%s\"", what, v.size(), printable(s.substr(at), 200).c_str());
}
// Message text of any shape and length.
inline std::string message(Gen &g, size_t max = 12000)
{
	if (g.chance(1, 60)) max = 150000;
	std::string s;
	switch (g.weighted({ 5, 3, 2, 2 })) {
	case 0: s = g.str(12, "abc d%s%n\t"); break;
	case 1: s = g.str(60, ""); break;
	case 2: { static const size_t k[] = { 4094, 4095, 4096, 4097, 8191, 8192, 8193, 3900, 4000, 8000, 1023, 1024, 255, 256 }; size_t n = k[g.draw(13)]; if (n > max) n = max; for (size_t i = 0; i < n; i++) s += (char)('!' + i % 90); break; }
	default: { size_t n = g.draw(max); char c = 'a' + g.draw(25); s.assign(n, c); for (size_t i = 0; i < n; i += 50) s[i] = '|'; } }
	for (auto &c : s) if (!c) c = '?';
	return s;
}
// The same text through different formats.
// the text as a format of its own
inline std::string doubled(const std::string &s) { std::string r; for (char c : s) { r += c; if (c == '%') r += c; } return r; }
inline std::string format_result(unsigned k, const std::string &s, long v)
{
	char b[64];
	switch (k) { case 0: return s; case 1: snprintf(b, sizeof b, "%d: ", (int)v); return b + s; case 2: snprintf(b, sizeof b, " %ld %c 50%%", v, 'x'); return s + b; case 4: return s; case 5: snprintf(b, sizeof b, "%d %ld %d %ld %d %ld %d %g ", 1, v, 3, ~v, 5, v, -7, v / 2.0); return b + s; default: snprintf(b, sizeof b, "%#lx/%5.2f/", v, v / 8.0); return b + s + "."; }
}
#define WITH_FORMAT(k, s, v, CALL) do { switch (k) { \
	case 0: CALL("%s", (s)); break; case 1: CALL("%d: %s", (int)(v), (s)); break; \
	case 2: CALL("%s %ld %c 50%%", (s), (long)(v), 'x'); break; case 4: CALL(doubled(s).c_str()); break; \
	case 5: CALL("%d %ld %d %ld %d %ld %d %g %s", 1, (long)(v), 3, ~(long)(v), 5, (long)(v), -7, (v) / 2.0, (s)); break; default: CALL("%#lx/%5.2f/%s.", (long)(v), (v) / 8.0, (s)); } } while (0)
