// A set under test next to its model.
#pragma once
#include "keys.h"
struct SetT {
	Universe *u = nullptr; set_Set s = nullptr; std::map<int, const void *> m; std::set<int> deleted; bool ro = false, within = false; Gen *g = nullptr; std::string name;
	unsigned long retr = 0, miss = 0, found = 0, hits_min = 0, hits = 0, size = 0, resz = 0; bool count_stats = true;
	void create() { s = set_create(u->hash, u->cmp); CHECK(s, "set_create returned NULL"); m.clear(); deleted.clear(); ro = false; retr = miss = found = hits = hits_min = size = resz = 0; }
	void insert(int i, int c)
	{
		const void *e = u->ptr(i, c); bool had = m.count(i); g->note("%s insert %s copy %d%s", name.c_str(), u->show(i).c_str(), c % u->copies, had ? " (present)" : "");
		int r = set_insert(s, e); CHECK(r == (had ? 1 : 0), "set_insert of %s element %s returned %d", had ? "a present" : "an absent", u->show(i).c_str(), r);
		if (!had) { m[i] = e; deleted.erase(i); }
	}
	void erase(int i, int c)
	{
		bool had = m.count(i); g->note("%s delete %s%s", name.c_str(), u->show(i).c_str(), had ? "" : " (absent)");
		int r = set_delete(s, u->ptr(i, c)); CHECK(r == (had ? 0 : 1), "set_delete of %s element %s returned %d", had ? "a present" : "an absent", u->show(i).c_str(), r);
		if (had) { m.erase(i); deleted.insert(i); }
	}
	void member(int i, int c, bool quiet = false)
	{
		bool had = m.count(i); if (!quiet) g->note("%s member %s -> %d", name.c_str(), u->show(i).c_str(), had);
		if (deleted.count(i)) g->nontrivial();
		int r = set_member(s, u->ptr(i, c)); CHECK(!!r == had, "set_member of %s element %s returned %d", had ? "a present" : "an absent", u->show(i).c_str(), r);
		retr++; if (had) found++; else miss++;
	}
	set_Stats stats()
	{
		set_Stats t = set_get_stats(s); CHECK(t, "set_get_stats returned NULL");
		check_chains(t, m.size(), u->constant_hash);
		if (count_stats) {
			CHECK(t->retrievals == retr, "statistics: %lu retrievals, there were %lu", t->retrievals, retr);
			CHECK(t->misses == miss, "statistics: %lu misses, there were %lu", t->misses, miss);
			CHECK(t->hits >= hits, "the number of hits fell from %lu to %lu", hits, t->hits); hits = t->hits;
			CHECK(t->hits <= found && t->hits >= hits_min, "statistics: %lu hits, expected %lu to %lu", t->hits, hits_min, found);
		}
		CHECK(t->size >= size && t->resizings >= resz && (t->resizings == resz || t->size > size || !size) && (t->size == size || t->resizings > resz || !size), "statistics: resizings %lu -> %lu while size %lu -> %lu", resz, t->resizings, size, t->size);
		CHECK(t->resizings < t->size, "statistics: %lu resizings to a size of %lu", t->resizings, t->size);
		size = t->size; resz = t->resizings; return t;
	}
	void count() { int n = set_count(s); CHECK(n == (int)m.size(), "set_count is %d, expected %zu", n, m.size()); }
	void full() { for (int i = 0; i < u->n; i++) member(i, i, true); count(); xfree(stats()); visits(); u->unchanged(); }
	// one presentation of every element, by an iteration kind
	struct Collect { std::vector<const void *> v; long stop; int val; };
	static Collect *C;
	static int cb(const void *e) { C->v.push_back(e); return C->stop >= 0 && (long)C->v.size() > C->stop ? C->val : 0; }
	static int cba(const void *e, void *a) { CHECK(a == C, "the callback got a wrong argument"); return cb(e); }
	void compare(const std::vector<const void *> &v, const char *how, bool whole)
	{
		std::set<int> seen;
		for (const void *e : v) {
			int i = u->which(e); CHECK(i >= 0 && m.count(i), "%s of %s presented %p, which is no element", how, name.c_str(), e);
			CHECK(m[i] == e, "%s of %s presented a copy of %s that was not inserted", how, name.c_str(), u->show(i).c_str());
			CHECK(seen.insert(i).second, "%s of %s presented %s twice", how, name.c_str(), u->show(i).c_str());
		}
		if (whole) CHECK(seen.size() == m.size(), "%s of %s presented %zu of %zu elements", how, name.c_str(), seen.size(), m.size());
	}
	void visits() { Collect c; c.stop = -1; C = &c; int r = set_iterate(s, cb); CHECK(!r, "set_iterate returned %d", r); compare(c.v, "set_iterate", true); }
};
SetT::Collect *SetT::C;
