#include "lib.h"
const char *PROPERTY = "C06", *LEVEL = "exploration";
const char *RULE = "A case is up to four stacks and a history of pushes (NULL and repeated pointers included), pops (also of empty stacks), tops, emptiness tests, bulk phases and re-creations, against model vectors; the stack touched is compared after every step, and all stacks are drained or destroyed at the end. Non-trivial: at least 3 pops that gave something, or NULL pushed and popped.";
const char *ASSUMPTIONS = "";
static void history(Gen &g)
{
	reset_lib(); int n = 1 + g.draw(3); stk_Stack s[4]; std::vector<void *> m[4]; static char pool[16]; int pops = 0;
	auto look = [&](int i) {
		void *w = m[i].empty() ? nullptr : m[i].back(), *t = stk_top(s[i]); CHECK(t == w, "stk_top of %zu is %p, expected %p", m[i].size(), t, w);
		int e = stk_isempty(s[i]); CHECK(!!e == m[i].empty(), "stk_isempty is %d for a stack of %zu", e, m[i].size());
	};
	auto pop = [&](int i) { void *w = m[i].empty() ? nullptr : m[i].back(), *r = stk_pop(s[i]); g.note("s%d pop of %zu -> %p", i, m[i].size(), w); CHECK(r == w, "stk_pop of %zu gave %p, expected %p", m[i].size(), r, w); if (!m[i].empty()) { m[i].pop_back(); if (++pops >= 3 || !w) g.nontrivial(); } else g.label("pop of an empty stack"); };
	for (int i = 0; i < n; i++) { s[i] = stk_create(); CHECK(s[i], "stk_create returned NULL"); look(i); }
	for (Loop l(g, 200, 1); l.more();) {
		int i = g.draw(n - 1);
		switch (g.weighted({ 10, 9, 2, 1, 1, 1 })) {
		case 0: { void *d = g.chance(1, 6) ? nullptr : g.chance(1, 6) ? (void *)g.wide(64) : &pool[g.draw(15)]; g.note("s%d push %p", i, d); if (!d) g.label("NULL pushed"); stk_push(s[i], d); m[i].push_back(d); break; }
		case 1: pop(i); break;
		case 2: for (int j = 0; j < n; j++) look(j); break;
		case 3: { int c = g.draw(g.chance(1, 20) ? 5000 : 60); g.note("s%d %d pushes", i, c); for (int k = 0; k < c; k++) { void *d = (void *)(intptr_t)k; stk_push(s[i], d); m[i].push_back(d); } break; }
		case 4: { size_t c = g.draw(m[i].size() + 2); while (c--) pop(i); break; }
		default: g.note("s%d destroy with %zu", i, m[i].size()); stk_destroy(s[i]); m[i].clear(); s[i] = stk_create(); g.label("destroyed");
		}
		look(i);
	}
	for (int i = 0; i < n; i++) { look(i); if (!m[i].empty() && !m[i].back()) g.label("destroyed with NULL on top"); if (g.flip()) { while (!m[i].empty()) pop(i); pop(i); look(i); } stk_destroy(s[i]); for (int j = i + 1; j < n; j++) look(j); }
}
static void at_scale(Gen &g)
{
	reset_lib(); stk_Stack s = stk_create(); std::vector<void *> m;
	for (Loop l(g, 4, 1); l.more();) {
		unsigned c = scale(g); g.note("%u pushes on %zu", c, m.size()); for (unsigned i = 0; i < c; i++) { void *d = (void *)(m.size() * 8 + 1); stk_push(s, d); m.push_back(d); } CHECK(!stk_isempty(s) && stk_top(s) == m.back(), "the top of %zu is %p", m.size(), stk_top(s));
		c = g.flip() ? 65536 - g.draw(2) : g.draw(m.size()); if (c > m.size()) c = m.size(); g.note("%u pops of %zu", c, m.size()); while (c--) { void *r = stk_pop(s); CHECK(r == m.back(), "stk_pop of %zu gave %p, expected %p", m.size(), r, m.back()); m.pop_back(); } CHECK(!!stk_isempty(s) == m.empty(), "stk_isempty is %d for %zu", stk_isempty(s), m.size());
	}
	if (g.flip()) { while (!m.empty()) { void *r = stk_pop(s); CHECK(r == m.back(), "stk_pop of %zu gave %p, expected %p", m.size(), r, m.back()); m.pop_back(); } CHECK(stk_isempty(s) && !stk_pop(s), "the drained stack is not empty"); } stk_destroy(s);
}
static Target t2("at scale", 80, 2000, at_scale, false);
static Target t1("history", 900000, 6000000, history);
