// Universes of keys (or set elements) with consistent hash and compare
// functions of many kinds, shared by the hash table and set checks.
#pragma once
#include "lib.h"

struct Key { int id, copy; unsigned long h; char text[40]; };
enum Kind { K_CUSTOM, K_STRING, K_POINTER, K_NUM };
typedef unsigned long (*HashFn)(const void *);
typedef int (*CmpFn)(const void *, const void *);

static unsigned long uh_stored(const void *k) { return ((const Key *)k)->h; }
static unsigned long uh_const(const void *) { return 7; }
static unsigned long uh_top(const void *) { return ~0UL; }
static int uc_plain(const void *a, const void *b) { return ((const Key *)a)->id - ((const Key *)b)->id; }
static int uc_bool(const void *a, const void *b) { return ((const Key *)a)->id != ((const Key *)b)->id; }
static int uc_high(const void *a, const void *b) { return ((const Key *)a)->id == ((const Key *)b)->id ? 0 : 0x100; }
static int uc_min(const void *a, const void *b) { return ((const Key *)a)->id == ((const Key *)b)->id ? 0 : -0x7fffffff - 1; }
// functions that use another hash table and another set themselves
static Key side_keys[6]; static hsh_HashTable side_h; static set_Set side_s, side_s2; static bool side_busy; static unsigned side_n, side_seen, side_tick;
static int side_cb(const void *) { side_seen++; return 0; }
static int side_cb2(const void *, const void *) { side_seen++; return 0; }
static void side()
{
	if (side_busy || side_tick++ % 3) return;
	side_busy = true;
	if (!side_h) { side_h = hsh_create(uh_stored, uc_plain); side_s = set_create(uh_stored, uc_plain); side_s2 = set_create(uh_stored, uc_plain); for (int i = 0; i < 6; i++) { side_keys[i].id = i; side_keys[i].h = i * 11 % 44; if (i < 5) { hsh_insert(side_h, &side_keys[i], &side_keys[i]); set_insert(side_s, &side_keys[i]); } if (i >= 3) set_insert(side_s2, &side_keys[i]); } }
	Key *k = &side_keys[side_n++ % 6]; bool in = k->id < 5;
	CHECK(hsh_retrieve(side_h, k) == (in ? k : nullptr), "a look-up in another table, from a hash or compare function, goes wrong"); CHECK(!!set_member(side_s, k) == in, "a look-up in another set, from a hash or compare function, goes wrong");
	if (!in && side_n % 5 == 0) { hsh_insert(side_h, k, k); hsh_delete(side_h, k); set_insert(side_s, k); set_delete(side_s, k); }
	if (side_n % 7 == 0) {
		set_Set u = side_n % 3 == 0 ? set_union(side_s, side_s2) : side_n % 3 == 1 ? set_inter(side_s, side_s2) : set_diff(side_s, side_s2); unsigned n = side_n % 3 == 0 ? 6 : side_n % 3 == 1 ? 2 : 3;
		CHECK((unsigned)set_count(u) == n && !set_equal(u, side_s) && !set_equal(side_s2, side_s), "set algebra from a hash or compare function goes wrong"); set_add(u, side_s2); set_del(u, side_s); CHECK(set_count(u) == 1, "set algebra from a hash or compare function goes wrong"); set_destroy(u);
		side_seen = 0; set_iterate(side_s, side_cb); hsh_iterate(side_h, side_cb2); CHECK(side_seen == 10, "an iteration from a hash or compare function presents %u elements of 10", side_seen);
	}
	side_busy = false;
}
static unsigned long uh_reent(const void *k) { side(); return ((const Key *)k)->h; }
static int uc_reent(const void *a, const void *b) { side(); return ((const Key *)a)->id - ((const Key *)b)->id; }
static unsigned long uh_text(const void *k) { unsigned long h = 5381; for (const char *s = (const char *)k; *s; s++) h = h * 33 + (unsigned char)*s; return h; }
static int uc_text(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b) ? -1 : 0; }

struct Universe {
	Kind kind; HashFn hash; CmpFn cmp; bool constant_hash = false; int n = 0, copies = 1; std::string name;
	std::vector<Key> keys;              // n * copies, fixed once filled
	std::vector<Key> keys0;             // pristine copy
	std::vector<char> lbuf, lbuf0; size_t stride = 0;      // long string keys: prefix, number, suffix
	// the pointer given to the library for key i, copy c
	const void *ptr(int i, int c = 0) const
	{
		const Key *k = &keys[(size_t)i * copies + (c % copies)];
		if (stride) return &lbuf[((size_t)i * copies + c % copies) * stride];
		switch (kind) { case K_STRING: return k->text; case K_POINTER: return k; case K_NUM: return (const void *)k->h; default: return k; }
	}
	// which key a pointer from the library is; -1 if it is none
	int which(const void *p, int *copy = nullptr) const
	{
		if (kind == K_NUM) { auto i = num.find(p); if (copy) *copy = 0; return i == num.end() ? -1 : i->second; }
		if (stride) { const char *b = lbuf.data(), *q = (const char *)p; if (q < b || q >= b + lbuf.size() || (q - b) % stride) return -1; size_t i = (q - b) / stride; if (copy) *copy = i % copies; return i / copies; }
		size_t off = kind == K_STRING ? offsetof(Key, text) : 0;
		const char *b = (const char *)keys.data() + off, *q = (const char *)p;
		if (q < b || q >= b + keys.size() * sizeof(Key) || (q - b) % sizeof(Key)) return -1;
		size_t i = (q - b) / sizeof(Key); if (copy) *copy = i % copies; return i / copies;
	}
	std::map<const void *, int> num;
	void unchanged() const { CHECK(lbuf == lbuf0, "the library modified a string key supplied by the user"); CHECK(!memcmp(keys.data(), keys0.data(), keys.size() * sizeof(Key)), "the library modified a key supplied by the user"); }
	std::string show(int i) const { char b[80]; if (kind == K_STRING) return printable((const char *)ptr(i), 60); snprintf(b, sizeof b, kind == K_CUSTOM ? "#%d(hash %lx)" : "#%d(%lx)", i, kind == K_CUSTOM ? keys[(size_t)i * copies].h : (unsigned long)ptr(i)); return b; }
};

// set_like: the library requires nothing more of elements than of keys
static void make_universe(Gen &g, Universe &u, int maxn, int fixed_n = 0)   // fixed_n: so many, and no function that makes long chains
{
	u.n = fixed_n ? fixed_n : 1 + g.small(maxn - 1);
	switch (g.weighted({ 6, 3, 2, 2 })) {
	case 0: {
		u.kind = K_CUSTOM; u.copies = 1 + g.draw(2);
		int hk = fixed_n ? 2 + 3 * g.draw(1) : g.draw(6); u.hash = hk == 0 ? uh_const : hk == 1 ? uh_top : uh_stored; u.constant_hash = hk < 2;
		static const char *hn[] = { "constant", "all ones", "sequential", "multiples of a table size", "high bits only", "full width", "few values" };
		u.name = std::string("custom keys, hash ") + hn[hk];
		unsigned long mul = hk == 3 ? g.pick(std::vector<unsigned long>{ 3, 11, 37, 33 * 113, 113, 341, 1031, 3 * 11 * 37 }) : 0; int sh = g.draw(62) + 1; unsigned long base = g.wide(64);
		uint64_t r = g.draw(~0ULL);
		u.keys.resize((size_t)u.n * u.copies);
		for (int i = 0; i < u.n; i++) {
			unsigned long h;
			switch (hk) { case 0: h = 7; break; case 1: h = ~0UL; break; case 2: h = base + i; break; case 3: h = base + mul * i; break; case 4: h = (unsigned long)i << sh; break; case 5: h = mix64(r + i); break; default: h = mix64(r + i) % 4; }
			for (int c = 0; c < u.copies; c++) { Key &k = u.keys[(size_t)i * u.copies + c]; memset(&k, 0, sizeof k); k.id = i; k.copy = c; k.h = h; }
		}
		u.cmp = g.pick(std::vector<CmpFn>{ uc_plain, uc_bool, uc_high, uc_min });
		if (!fixed_n && g.chance(1, 16)) { side_h = nullptr; side_busy = false; side_n = side_tick = 0; u.hash = uh_reent; u.cmp = uc_reent; u.name += ", functions that use other tables"; }
		break; }
	case 1: {
		u.kind = K_STRING; u.copies = 1 + g.draw(2);
		int v = g.draw(3); u.hash = v & 1 ? uh_text : nullptr; u.cmp = v & 2 ? uc_text : nullptr;
		if (v == 3 && g.flip()) { u.hash = hsh_string_hash; u.cmp = hsh_string_compare; }
		u.name = v ? "strings" : "strings, default functions";
		if (!fixed_n && g.chance(1, 6)) { u.hash = uh_const; u.constant_hash = true; u.name += ", constant hash"; }
		int form = g.draw(4);
		if (!fixed_n && g.chance(1, 8)) {   // long strings that differ in a few characters only
			u.n = std::min(u.n, 40); size_t pre = g.chance(1, 4) ? 3000 + g.draw(3000) : g.draw(600), suf = g.draw(300); u.stride = pre + 8 + suf; u.name += ", long";
			u.lbuf.assign(u.stride * u.n * u.copies, 0); u.keys.resize((size_t)u.n * u.copies);
			for (int i = 0; i < u.n; i++) for (int c = 0; c < u.copies; c++) { Key &k = u.keys[(size_t)i * u.copies + c]; memset(&k, 0, sizeof k); k.id = i; k.copy = c; char *b = &u.lbuf[((size_t)i * u.copies + c) * u.stride]; memset(b, 'p', pre); snprintf(b + pre, 6, "%04d", i); memset(b + pre + 4, 's', suf); }
			u.lbuf0 = u.lbuf; break;
		}
		u.keys.resize((size_t)u.n * u.copies);
		for (int i = 0; i < u.n; i++) for (int c = 0; c < u.copies; c++) {
			Key &k = u.keys[(size_t)i * u.copies + c]; memset(&k, 0, sizeof k); k.id = i; k.copy = c;
			switch (form) {
			case 0: snprintf(k.text, sizeof k.text, "%d", i); break;
			case 1: snprintf(k.text, sizeof k.text, "prefix-common-%d", i); break;
			case 2: { int p = 0; for (unsigned x = i; x && p < 38; x /= 3) k.text[p++] = "\x80\xff" "a"[x % 3]; break; }      // "" for key 0; bytes above 127
			case 4: for (int b = 0; b < 22; b++) k.text[b] = (i >> b & 1 ? 'A' : 'a') + b; break;   // differ in case only
			default: memset(k.text, 'a', i % 20); snprintf(k.text + i % 20, 16, "%d", i / 20); }
		}
		if (form == 2) { std::set<std::string> s; for (int i = 0; i < u.n; i++) s.insert(u.keys[(size_t)i * u.copies].text); if ((int)s.size() != u.n) { // base-3 digits, top zeros vanish: make distinct
				for (int i = 0; i < u.n; i++) for (int c = 0; c < u.copies; c++) { Key &k = u.keys[(size_t)i * u.copies + c]; memset(k.text, 0, sizeof k.text); int p = 0; unsigned x = i; while (x && p < 38) { x--; k.text[p++] = "\x80\xff" "a"[x % 3]; x /= 3; } } } }
		break; }
	case 2:
		u.kind = K_POINTER; u.copies = 1; u.hash = hsh_pointer_hash; u.cmp = hsh_pointer_compare; u.name = "addresses of objects";
		u.keys.resize(u.n); for (int i = 0; i < u.n; i++) { memset(&u.keys[i], 0, sizeof(Key)); u.keys[i].id = i; }
		break;
	default: {
		u.kind = K_NUM; u.copies = 1; u.hash = hsh_pointer_hash; u.cmp = hsh_pointer_compare; u.name = "arbitrary pointer values";
		u.keys.resize(u.n); int sh = g.draw(56); unsigned long base = g.wide(64);
		for (int i = 0; i < u.n; i++) { memset(&u.keys[i], 0, sizeof(Key)); u.keys[i].id = i; unsigned long v; do v = base + ((unsigned long)i << sh) ; while (0); while (u.num.count((void *)v)) v++; u.keys[i].h = v; u.num[(void *)v] = i; }
		if (g.flip() && !u.num.count(nullptr)) { u.num.erase((void *)u.keys[0].h); u.keys[0].h = 0; u.num[nullptr] = 0; }
	}}
	u.keys0 = u.keys;
	g.note("%s, %d keys x %d copies", u.name.c_str(), u.n, u.copies);
	g.label(u.name.c_str());
}

// What statistics must satisfy whatever the layout of the table is.
template <class S> static void check_chains(const S *s, unsigned long entries, bool constant_hash)
{
	CHECK(s->entries == entries, "statistics report %lu entries, there are %lu", s->entries, entries);
	CHECK(s->buckets_used <= s->size && s->buckets_used <= entries && (s->buckets_used > 0) == (entries > 0), "statistics: %lu buckets used of %lu with %lu entries", s->buckets_used, s->size, entries);
	CHECK(s->singletons <= s->buckets_used, "statistics: %lu singletons in %lu used buckets", s->singletons, s->buckets_used);
	CHECK((s->maximum_length > 0) == (entries > 0), "statistics: maximum chain length %lu with %lu entries", s->maximum_length, entries);
	unsigned long multi = s->buckets_used - s->singletons;
	CHECK((multi > 0) == (s->maximum_length > 1), "statistics: %lu of %lu buckets have one entry, maximum chain length %lu", s->singletons, s->buckets_used, s->maximum_length);
	if (multi) {
		unsigned long in_multi = entries - s->singletons;
		CHECK(entries >= s->singletons && in_multi <= multi * s->maximum_length && in_multi >= (multi - 1) * 2 + s->maximum_length,
			"statistics: %lu entries cannot be in %lu buckets with %lu singletons and maximum length %lu", entries, s->buckets_used, s->singletons, s->maximum_length);
	} else CHECK(s->singletons == entries, "statistics: %lu singletons, %lu entries, no longer chain", s->singletons, entries);
	if (constant_hash) CHECK(s->maximum_length == entries && s->buckets_used == (entries ? 1 : 0), "statistics: %lu entries with one hash value in %lu buckets, longest chain %lu", entries, s->buckets_used, s->maximum_length);
}
static std::string slurp(FILE *f) { fflush(f); long n = ftell(f); std::string s(n > 0 ? n : 0, 0); rewind(f); size_t k = fread(&s[0], 1, s.size(), f); s.resize(k); fclose(f); return s; }
