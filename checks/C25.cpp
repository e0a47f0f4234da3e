#include "lib.h"
#include <signal.h>
#include <unistd.h>
const char *PROPERTY = "C25", *LEVEL = "exploration";
const char *RULE = "Every case builds one live object of every kind (hash table, set, list, skip list, argument list, string heap, object heap, stack, and plain memory) by random valid operations, and calls one operation with NULL or an object of another kind in the place of its handle (or of the second handle of a set operation); all pairs of operation and wrong handle occur. The process must abort with an internal error, before any of these objects was modified or released and without calling a callback; the documented no-ops must return having changed nothing. Valid operations must not abort. null arguments: so it must abort when NULL is given for a string key, a flag name, or for the compare function of a skip list. Non-trivial: the objects had been used before.";
const char *ASSUMPTIONS = "stacks have no tag and are not checked; handles of destroyed objects are dangling pointers and outside the property";
enum { HSH, SET, LST, SL, ARG, MS, MO, STK, RAW, KINDS };
static const char *kind_name[] = { "a hash table", "a set", "a list", "a skip list", "an argument list", "a string heap", "an object heap", "a stack", "plain memory" };
struct World { void *h[KINDS]; void *set2, *got; };
static World W; static FILE *sink; static bool called;
static int cb2(const void *, const void *) { called = true; return 0; }
static int cb3(const void *, const void *, void *) { called = true; return 0; }
static int cb1(const void *) { called = true; return 0; }
static int cbe(const void *, void *) { called = true; return 0; }
static int cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static const void *key(const void *d) { return d; }
static char K[16][8] = { "a", "bb", "ccc", "dd", "e" };
struct Op { const char *name; int kind; void (*f)(void *h, int n); bool destroys = false; bool noop = false; };
#define H (hsh_HashTable)h
#define S (set_Set)h
#define L (lst_List)h
#define A (arg_List)h
static std::vector<Op> ops = {
	{ "hsh_destroy", HSH, [](void *h, int) { hsh_destroy(H); }, true },
	{ "hsh_insert", HSH, [](void *h, int n) { hsh_insert(H, K[n], K[n]); } },
	{ "hsh_delete", HSH, [](void *h, int n) { hsh_delete(H, K[n]); } },
	{ "hsh_retrieve", HSH, [](void *h, int n) { hsh_retrieve(H, K[n]); } },
	{ "hsh_iterate", HSH, [](void *h, int) { hsh_iterate(H, cb2); } },
	{ "hsh_iterate_arg", HSH, [](void *h, int) { hsh_iterate_arg(H, cb3, nullptr); } },
	{ "hsh_get_stats", HSH, [](void *h, int) { xfree(hsh_get_stats(H)); } },
	{ "hsh_print_stats", HSH, [](void *h, int) { hsh_print_stats(H, sink); } },
	{ "hsh_key_strings", HSH, [](void *h, int) { hsh_key_strings(H); } },
	{ "hsh_init_position", HSH, [](void *h, int) { hsh_init_position(H); hsh_readonly(H, 0); } },
	{ "hsh_next_position", HSH, [](void *h, int) { hsh_next_position(H, nullptr); } },
	{ "hsh_readonly", HSH, [](void *h, int n) { int o = hsh_readonly(H, n & 1); hsh_readonly(H, o); } },
	{ "set_get_hash", SET, [](void *h, int) { set_get_hash(S); } },
	{ "set_get_compare", SET, [](void *h, int) { set_get_compare(S); } },
	{ "set_destroy", SET, [](void *h, int) { set_destroy(S); }, true },
	{ "set_insert", SET, [](void *h, int n) { set_insert(S, K[n]); } },
	{ "set_delete", SET, [](void *h, int n) { set_delete(S, K[n]); } },
	{ "set_member", SET, [](void *h, int n) { set_member(S, K[n]); } },
	{ "set_iterate", SET, [](void *h, int) { set_iterate(S, cb1); } },
	{ "set_iterate_arg", SET, [](void *h, int) { set_iterate_arg(S, cbe, nullptr); } },
	{ "set_add (first)", SET, [](void *h, int) { set_add(S, (set_Set)W.set2); } },
	{ "set_add (second)", SET, [](void *h, int) { set_add((set_Set)W.set2, S); } },
	{ "set_del (first)", SET, [](void *h, int) { set_del(S, (set_Set)W.set2); } },
	{ "set_del (second)", SET, [](void *h, int) { set_del((set_Set)W.set2, S); } },
	{ "set_union (first)", SET, [](void *h, int) { set_destroy(set_union(S, (set_Set)W.set2)); } },
	{ "set_union (second)", SET, [](void *h, int) { set_destroy(set_union((set_Set)W.set2, S)); } },
	{ "set_inter (first)", SET, [](void *h, int) { set_destroy(set_inter(S, (set_Set)W.set2)); } },
	{ "set_inter (second)", SET, [](void *h, int) { set_destroy(set_inter((set_Set)W.set2, S)); } },
	{ "set_diff (first)", SET, [](void *h, int) { set_destroy(set_diff(S, (set_Set)W.set2)); } },
	{ "set_diff (second)", SET, [](void *h, int) { set_destroy(set_diff((set_Set)W.set2, S)); } },
	{ "set_equal (first)", SET, [](void *h, int) { set_equal(S, (set_Set)W.set2); } },
	{ "set_equal (second)", SET, [](void *h, int) { set_equal((set_Set)W.set2, S); } },
	{ "set_get_stats", SET, [](void *h, int) { xfree(set_get_stats(S)); } },
	{ "set_print_stats", SET, [](void *h, int) { set_print_stats(S, sink); } },
	{ "set_count", SET, [](void *h, int) { set_count(S); } },
	{ "set_init_position", SET, [](void *h, int) { set_init_position(S); set_readonly(S, 0); } },
	{ "set_next_position", SET, [](void *h, int) { set_next_position(S, nullptr); } },
	{ "set_readonly", SET, [](void *h, int n) { int o = set_readonly(S, n & 1); set_readonly(S, o); } },
	{ "lst_destroy", LST, [](void *h, int) { lst_destroy(L); }, true },
	{ "lst_append", LST, [](void *h, int n) { lst_append(L, K[n]); }, false, true },
	{ "lst_push", LST, [](void *h, int n) { lst_push(L, K[n]); } },
	{ "lst_pop", LST, [](void *h, int) { lst_pop(L); } },
	{ "lst_top", LST, [](void *h, int) { lst_top(L); } },
	{ "lst_nth_get", LST, [](void *h, int n) { lst_nth_get(L, n % 4 + 1); } },
	{ "lst_nth_set", LST, [](void *h, int n) { if (!h || h != W.h[LST] || lst_length(L) >= 1) lst_nth_set(L, 1, K[n]); } },
	{ "lst_member", LST, [](void *h, int n) { lst_member(L, K[n]); } },
	{ "lst_length", LST, [](void *h, int) { lst_length(L); } },
	{ "lst_iterate", LST, [](void *h, int) { lst_iterate(L, cb1); } },
	{ "lst_iterate_arg", LST, [](void *h, int) { lst_iterate_arg(L, cbe, nullptr); } },
	{ "lst_truncate", LST, [](void *h, int n) { lst_truncate(L, n); } },
	{ "lst_truncate_position", LST, [](void *h, int) { lst_truncate_position(L, h && h == W.h[LST] ? lst_init_position(L) : nullptr); } },
	{ "lst_init_position", LST, [](void *h, int) { lst_init_position(L); } },
	{ "lst_last_position", LST, [](void *h, int) { lst_last_position(L); } },
	{ "lst_nth_position", LST, [](void *h, int n) { lst_nth_position(L, n); } },
	{ "lst_dump", LST, [](void *h, int) { lst_dump(L); } },
	{ "sl_destroy", SL, [](void *h, int) { sl_destroy((sl_List)h); }, true },
	{ "sl_insert", SL, [](void *h, int n) { if (!h || h != W.h[SL] || !sl_find(h, K[n])) sl_insert((sl_List)h, K[n]); } },
	{ "sl_delete", SL, [](void *h, int n) { if (!h || h != W.h[SL] || sl_find(h, K[n])) sl_delete((sl_List)h, K[n]); } },
	{ "sl_find", SL, [](void *h, int n) { sl_find((sl_List)h, K[n]); } },
	{ "sl_iterate", SL, [](void *h, int) { sl_iterate((sl_List)h, cb1); }, false, true },
	{ "sl_iterate_arg", SL, [](void *h, int) { sl_iterate_arg((sl_List)h, cbe, nullptr); }, false, true },
	{ "_sl_dump", SL, [](void *h, int) { _sl_dump((sl_List)h); } },
	{ "arg_destroy", ARG, [](void *h, int) { arg_destroy(A); }, true },
	{ "arg_add", ARG, [](void *h, int n) { arg_add(A, K[n]); } },
	{ "arg_addn", ARG, [](void *h, int n) { arg_addn(A, "abcdefghijklmnop", n); } },
	{ "arg_grow", ARG, [](void *h, int n) { arg_grow(A, "abcdefghijklmnop", n); } },
	{ "arg_finish", ARG, [](void *h, int) { arg_finish(A); } },
	{ "arg_get", ARG, [](void *h, int) { if (!h || h != W.h[ARG] || arg_count(A)) arg_get(A, 0); } },
	{ "arg_count", ARG, [](void *h, int) { arg_count(A); } },
	{ "arg_get_vector", ARG, [](void *h, int) { int c; char **v; arg_get_vector(A, &c, &v); } },
	{ "mem_destroy_strings", MS, [](void *h, int) { mem_destroy_strings((mem_String)h); }, true },
	{ "mem_strcpy", MS, [](void *h, int n) { mem_strcpy((mem_String)h, K[n]); } },
	{ "mem_strncpy", MS, [](void *h, int n) { mem_strncpy((mem_String)h, "abcdefghijklmnop", n); } },
	{ "mem_grow", MS, [](void *h, int n) { mem_grow((mem_String)h, "abcdefghijklmnop", n); } },
	{ "mem_finish", MS, [](void *h, int) { mem_finish((mem_String)h); } },
	{ "mem_get_string_stats", MS, [](void *h, int) { xfree(mem_get_string_stats((mem_String)h)); } },
	{ "mem_print_string_stats", MS, [](void *h, int) { mem_print_string_stats((mem_String)h, sink); } },
	{ "mem_destroy_objects", MO, [](void *h, int) { mem_destroy_objects((mem_Object)h); }, true },
	{ "mem_get_object", MO, [](void *h, int) { W.got = mem_get_object((mem_Object)h); } },
	{ "mem_get_empty_object", MO, [](void *h, int) { mem_get_empty_object((mem_Object)h); } },
	{ "mem_free_object", MO, [](void *h, int) { void *o = h && h == W.h[MO] ? mem_get_object((mem_Object)h) : K; mem_free_object((mem_Object)h, o); } },
	{ "mem_get_object_stats", MO, [](void *h, int) { xfree(mem_get_object_stats((mem_Object)h)); } },
	{ "mem_print_object_stats", MO, [](void *h, int) { mem_print_object_stats((mem_Object)h, sink); } },
};
static void on_abort(int) { std::string s = vf_changes(); if (s.empty() && called) s = "a callback was called"; snprintf(xfer, 300, "%s", s.empty() ? "unchanged" : s.c_str()); }
static void wrong(Gen &g)
{
	unsigned o = (unsigned)g.draw(ops.size() - 1), w = (unsigned)g.draw(KINDS - 1); const Op &op = ops[o];
	bool null = w == (unsigned)op.kind; std::vector<std::pair<unsigned, int>> prefix; 
	for (Loop l(g, 12); l.more();) { unsigned i = (unsigned)g.draw(ops.size() - 1); int n = (int)g.draw(15); if (!ops[i].destroys) prefix.push_back({ i, n }); }
	int n = (int)g.draw(15); if (prefix.size() > 1) g.nontrivial(); bool ro_h = g.chance(1, 8), ro_s = g.chance(1, 8);
	g.note("%s on %s after %zu valid operations", op.name, null ? "NULL" : kind_name[w], prefix.size()); g.label(null ? "NULL" : "wrong kind"); for (auto &p : prefix) g.note("  before: %s(%d)", ops[p.first].name, p.second);
	xfer[0] = 0; xfer[400] = 0; ForkOpts fo; fo.wall = 20;
	Outcome r = run_forked([&] {
		reset_lib(); setvbuf(stderr, nullptr, _IONBF, 0); sink = fopen("/dev/null", "w"); vf_track_start(); called = false;
		W = World(); W.h[HSH] = hsh_create(hsh_pointer_hash, hsh_pointer_compare); W.h[SET] = set_create(hsh_pointer_hash, hsh_pointer_compare); W.set2 = set_create(hsh_pointer_hash, hsh_pointer_compare); set_insert((set_Set)W.set2, K[2]); set_insert((set_Set)W.set2, K[5]);
		W.h[LST] = lst_create(); W.h[SL] = sl_create(cmp, key, nullptr); W.h[ARG] = arg_create(); W.h[MS] = mem_create_strings(); W.h[MO] = mem_create_objects(24); W.h[STK] = stk_create(); stk_push((stk_Stack)W.h[STK], K[1]); W.h[RAW] = xcalloc(1, 256); if (n & 1) memset(W.h[RAW], n * 17, 256);
		for (auto &p : prefix) { const Op &q = ops[p.first]; snprintf(xfer + 400, 60, "%s", q.name); q.f(W.h[q.kind], p.second); }
		void *h = null ? nullptr : W.h[w];
		if (ro_h) hsh_readonly((hsh_HashTable)W.h[HSH], 1); if (ro_s) set_readonly((set_Set)W.set2, 1);
		fflush(stdout); called = false; xfer[400] = 0; { std::vector<const void *> v(W.h, W.h + KINDS); v.push_back(W.set2); vf_snapshot(v); } struct sigaction a = {}; a.sa_handler = on_abort; sigaction(SIGABRT, &a, nullptr);
		op.f(h, n);
		std::string s = vf_changes(); snprintf(xfer, 300, "%s", s.empty() && called ? "a callback was called" : s.empty() ? "unchanged" : s.c_str());
	}, fo);
	CHECK(!xfer[400], "a valid %s failed: it %s", xfer + 400, r.str().c_str()); std::string state = xfer;
	if (null && op.noop) { CHECK(r.returned, "%s on NULL should do nothing, but it %s", op.name, r.str().c_str()); CHECK(state == "unchanged", "%s on NULL: %s", op.name, state.c_str()); return; }
	CHECK(r.aborted() && r.err.find("Internal error") != std::string::npos, "%s on %s should abort with an internal error, but it %s", op.name, null ? "NULL" : kind_name[w], r.str().c_str());
	CHECK(state == "unchanged", "%s on %s is diagnosed only after %s", op.name, null ? "NULL" : kind_name[w], state.c_str());
}
static void valid(Gen &g)
{
	// destroying valid objects in any order, after any operations, is accepted
	std::vector<std::pair<unsigned, int>> seq; for (Loop l(g, 40); l.more();) seq.push_back({ (unsigned)g.draw(ops.size() - 1), (int)g.draw(15) }); if (seq.size() > 3) g.nontrivial();
	xfer[400] = 0; for (auto &p : seq) g.note("%s(%d)", ops[p.first].name, p.second);
	Outcome r = run_forked([&] { reset_lib(); sink = fopen("/dev/null", "w"); int fd = dup(1); (void)fd; freopen("/dev/null", "w", stdout);
		auto make = [&](int k) { switch (k) { case HSH: W.h[k] = hsh_create(hsh_pointer_hash, hsh_pointer_compare); break; case SET: W.h[k] = set_create(hsh_pointer_hash, hsh_pointer_compare); break; case LST: W.h[k] = lst_create(); break; case SL: W.h[k] = sl_create(cmp, key, nullptr); break; case ARG: W.h[k] = arg_create(); break; case MS: W.h[k] = mem_create_strings(); break; case MO: W.h[k] = mem_create_objects(24); break; } };
		for (int k = 0; k <= MO; k++) make(k); W.set2 = set_create(hsh_pointer_hash, hsh_pointer_compare); set_insert((set_Set)W.set2, K[2]);
		for (auto &p : seq) { const Op &q = ops[p.first]; snprintf(xfer + 400, 60, "%s", q.name); q.f(W.h[q.kind], p.second); if (q.destroys) make(q.kind); } });
	CHECK(r.returned, "a valid %s failed: it %s", xfer + 400, r.str().c_str());
}
// NULL where a string key, a name or a function is needed
static void null_arguments(Gen &g)
{
	static const char *what[] = { "hsh_insert of a NULL string", "hsh_delete of a NULL string", "hsh_retrieve of a NULL string", "set_insert of a NULL string", "set_delete of a NULL string", "set_member of a NULL string", "hsh_string_hash of NULL", "hsh_string_compare with NULL second", "hsh_string_compare with NULL first", "hsh_string_compare of NULL and NULL", "dbg_set of NULL", "flg_set of NULL", "hsh_insert with a hash function of one's own", "set_insert with a hash function of one's own", "sl_create without compare function" };
	unsigned k = (unsigned)g.draw(14), n = k == 12 || k == 13 ? 1 + (unsigned)g.draw(14) : (unsigned)g.draw(15); bool reg = g.flip(); g.note("%s, after %u others", what[k], n); g.label(what[k]); g.nontrivial();
	ForkOpts fo; fo.wall = 20; xfer[0] = 0;
	Outcome r = run_forked([&] {
		reset_lib(); setvbuf(stderr, nullptr, _IONBF, 0); static auto one = [](const void *) -> unsigned long { return 1; }; unsigned long (*h)(const void *) = k == 12 || k == 13 ? (unsigned long (*)(const void *))one : nullptr; hsh_HashTable t = hsh_create(h, nullptr); set_Set s = set_create(h, nullptr);
		for (unsigned i = 0; i < n; i++) { snprintf(K[i], 8, "k%u", i); hsh_insert(t, K[i], K[i]); set_insert(s, K[i]); } if (reg) { dbg_register(1, "x"); flg_register(1, "x"); }
		snprintf(xfer, 10, "ready");
		switch (k) { case 0: case 12: hsh_insert(t, nullptr, K); break; case 1: hsh_delete(t, nullptr); break; case 2: hsh_retrieve(t, nullptr); break; case 3: case 13: set_insert(s, nullptr); break; case 4: set_delete(s, nullptr); break; case 5: set_member(s, nullptr); break;
		case 6: hsh_string_hash(nullptr); break; case 7: hsh_string_compare("", nullptr); break; case 8: hsh_string_compare(nullptr, "a"); break; case 9: hsh_string_compare(nullptr, nullptr); break; case 10: dbg_set(nullptr); break; case 14: sl_create(nullptr, key, nullptr); break; default: flg_set(nullptr); } }, fo);
	CHECK(!strcmp(xfer, "ready"), "the preparation failed: it %s", r.str().c_str());
	CHECK(r.aborted() && r.err.find("Internal error") != std::string::npos, "%s should abort with an internal error, but it %s", what[k], r.str().c_str());
}
static Target t3("null arguments", 3000, 20000, null_arguments, false);
static Target t1("wrong", 20000, 120000, wrong, false);
static Target t2("valid", 4000, 20000, valid, false);
