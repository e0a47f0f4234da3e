// Caller's buffers: exactly as long as said, so that reading more is caught,
// and scribbled over and freed afterwards, so that keeping them is caught.
#pragma once
#include "lib.h"
struct Buf {
	char *p; size_t n;
	Buf(const std::string &s, bool terminate = true) : n(s.size() + terminate) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), s.size()); if (terminate) p[n - 1] = 0; }
	~Buf() { memset(p, 'Z', n); free(p); }
	operator const char *() const { return p; }
	Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
};
// Contents: short from a small alphabet (so that they repeat), arbitrary
// bytes, or long.
inline std::string content(Gen &g, bool nul = false)
{
	std::string s;
	switch (g.weighted({ 6, 4, 3, 2, 1 })) {
	case 0: s = g.str(3, "ab"); break;
	case 1: { static const char *w[] = { "alpha", "beta", "gamma", "x0", "x1", "the quick brown fox", "a%sb%n", "\xff\xfe" }; s = w[g.draw(7)]; break; }
	case 2: s = g.str(24, ""); break;
	case 3: { size_t n = g.small(600); unsigned char c = 1 + g.draw(254); s.assign(n, (char)c); if (n && g.flip()) s[g.draw(n - 1)] = 'q'; break; }
	default: { size_t n = g.small(70000); if (g.chance(1, 3)) n = ((size_t)2 << g.draw(15)) - 2 + g.draw(3); unsigned a = g.draw(255), b = 1 + g.draw(254); for (size_t i = 0; i < n; i++) s += (char)((a + b * i) | 1); } }
	if (nul) { if (g.chance(1, 6) && !s.empty()) s[g.draw(s.size() - 1)] = 0; }
	else for (auto &c : s) if (!c) c = 1;
	return s;
}
// A set of live blocks: contents checked, no overlap.
struct Blocks {
	std::map<const char *, std::string> m;   // with the terminator
	void add(const char *p, const std::string &s, const char *what)
	{
		CHECK(p, "%s returned NULL", what);
		CHECK(!memcmp(p, s.data(), s.size()) && !p[s.size()], "%s returned \"%s\", expected \"%s\"", what, printable(std::string(p, strnlen(p, s.size() + 1))).c_str(), printable(s).c_str());
		size_t n = s.size() + 1; auto i = m.lower_bound(p);
		CHECK(i == m.end() || (uintptr_t)p + n <= (uintptr_t)i->first, "%s: the new string overlaps an older one", what);
		if (i != m.begin()) { --i; CHECK((uintptr_t)i->first + i->second.size() <= (uintptr_t)p, "%s: the new string overlaps an older one", what); }
		m[p] = s + '\0';
	}
	void verify(const char *when) const { for (auto &x : m) CHECK(!memcmp(x.first, x.second.data(), x.second.size()), "%s: the string \"%s\" changed to \"%s\"", when, printable(x.second).c_str(), printable(std::string(x.first, strnlen(x.first, x.second.size()))).c_str()); }
};
