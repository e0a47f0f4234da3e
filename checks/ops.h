// Programs over the whole library: a list of steps, drawn up front, that can be
// executed again with the same effect.  What it observes is written to a trace
// (values, never addresses), so that two executions can be compared.
#pragma once
#include "buf.h"
#include <unistd.h>
#include <sys/wait.h>
struct Step { int op; unsigned a, b; std::string s; };
typedef std::vector<Step> Program;
namespace ops {
const int NU = 96;
struct User { char name[NU][12]; int num[NU]; char obj[NU]; };
inline User user, user0;
inline void make_user() { for (int i = 0; i < NU; i++) { snprintf(user.name[i], 12, "%s%d", i % 3 ? "k" : "key-", i); user.num[i] = i * 7 - 50; user.obj[i] = 0; } user0 = user; }
inline void user_unchanged() { CHECK(!memcmp(&user, &user0, sizeof user), "the library modified keys or data of the user"); }
inline std::string *trace; inline unsigned mark;
inline void obs(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void obs(const char *f, ...) { if (!trace) return; char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); *trace += b; *trace += '\n'; }
inline void obs_s(const char *w, const char *s) { if (trace) *trace += std::string(w) + " " + (s ? printable(std::string(s), 200) : std::string("NULL")) + "\n"; }
// what is printed, without addresses
inline void obs_print(const char *w, const std::function<void(FILE *)> &f)
{
	char *t = nullptr; size_t n = 0; FILE *h = open_memstream(&t, &n); f(h); fclose(h); std::string s(t, n), o; free(t);
	for (size_t i = 0; i < s.size(); i++) { if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') { o += '@'; i++; while (i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) i++; } else o += s[i]; }
	if (trace) *trace += std::string(w) + " " + o;
}
inline int idx(const void *p) { const char *c = (const char *)p; if (c >= user.name[0] && c < user.name[0] + sizeof user.name) return (int)((c - user.name[0]) / 12); if (c >= (char *)user.num && c < (char *)user.num + sizeof user.num) return 100 + (int)((c - (char *)user.num) / 4); if (c >= user.obj && c < user.obj + sizeof user.obj) return 200 + (int)(c - user.obj); return p ? -2 : -1; }
inline long acc, cnt, stop_at;
inline int cb1(const void *d) { acc = acc * 1 + (idx(d) + 3) * (idx(d) + 5); return ++cnt == stop_at ? 7 : 0; }
inline int cb1a(const void *d, void *a) { acc += *(int *)a; return cb1(d); }
inline int cb2(const void *k, const void *d) { acc += idx(k); return cb1(d); }
inline int cb3(const void *k, const void *d, void *a) { acc += *(int *)a; return cb2(k, d); }
inline int cbs(const char *s) { for (; *s; s++) acc += *s; return ++cnt == stop_at ? 9 : 0; }
inline int cbsa(const char *s, void *a) { acc += *(int *)a; return cbs(s); }
inline int ncmp(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b); }
inline const void *nkey(const void *d) { return d; }
inline const char *nprint(const void *d) { return (const char *)d; }
const int M = 2;
enum { HSH, SET, LST, SL, ARG, MS, MO, STK, STR, POOL, TIM, REG, SRC, LOG, CODE, WRAP, ERR, PR, PRS, NOPS };
inline const char *op_name[] = { "hash", "set", "list", "skip list", "arguments", "string heap", "object heap", "stack", "strings", "string pool", "timers", "flags", "source", "log", "codes", "wrappers", "errors", "processes", "concrete names" };
inline long hsh_entries(hsh_HashTable t) { hsh_Stats z = hsh_get_stats(t); long n = (long)z->entries; xfree(z); return n; }
struct Machine {
	hsh_HashTable h[M] = {}; set_Set s[M] = {}; lst_List l[M] = {}; sl_List k[M] = {}; arg_List a[M] = {}; mem_String ms[M] = {}; mem_Object mo[M] = {}; stk_Stack st[M] = {}; str_Pool p[M] = {};
	bool hstr[M] = {}, sstr[M] = {}; bool agrow[M] = {}, msgrow[M] = {}; bool pgrow[M] = {}, sgrow = false; std::vector<void *> objs[M]; std::vector<src_Type> toks; bool src = false; bool logging = false; std::set<int> timers, concretes; bool reg_d[40] = {}, reg_f[40] = {}; std::string logname; bool global = false, unique = false;
	const char *nm(unsigned i) { return user.name[i % NU]; }
	void *dt(unsigned i) { if (i % 16 == 9) return nullptr; return i % 2 ? (void *)&user.num[i / 2 % NU] : (void *)&user.obj[i / 2 % NU]; }
	void begin(unsigned b) { acc = cnt = 0; stop_at = b & 1 ? 1 + b / 2 % 5 : -1; }
	void ended(int r) { obs("iterated %ld sum %ld result %d", cnt, stop_at > 0 && cnt >= stop_at ? -1 : acc, r); }
	void do_hash(const Step &q)
	{
		unsigned i = q.a % M; hsh_HashTable &t = h[i];
		if (!t) { hstr[i] = q.b & 1; t = hstr[i] ? hsh_create(nullptr, nullptr) : hsh_create(hsh_pointer_hash, hsh_pointer_compare); obs("hash"); }
		switch (q.b / 2 % 14) {
		case 0: case 1: obs("insert %d", hsh_insert(t, nm(q.b / 32), dt(q.b / 7))); break;
		case 2: { unsigned n = q.b / 32 % NU; long r = 0; for (unsigned j = 0; j < n; j++) r += hsh_insert(t, nm(j), dt(j)); obs("inserts %ld", r); break; }
		case 3: obs("delete %d", hsh_delete(t, nm(q.b / 32))); break;
		case 4: { unsigned n = q.b / 32 % NU; long r = 0; for (unsigned j = 0; j < n; j++) r += hsh_delete(t, nm(j)); obs("deletes %ld", r); break; }
		case 5: obs("retrieve %d", idx(hsh_retrieve(t, nm(q.b / 32)))); break;
		case 6: begin(q.b / 32); if (hstr[i]) ended(hsh_iterate(t, cb2)); else { stop_at = -1; ended(hsh_iterate(t, cb2)); } break;
		case 7: { int x = 5; begin(0); ended(hsh_iterate_arg(t, cb3, &x)); break; }
		case 8: { hsh_Stats z = hsh_get_stats(t); obs("entries %lu", z->entries); xfree(z); break; }
		case 9: obs_print("stats", [&](FILE *f) { hsh_print_stats(t, f); }); break;
		case 10: { hsh_Position z; void *K = nullptr; void *d; long n = 0, sum = 0; HSH_ITERATE(t, z, K, d) { n++; sum += idx(K) * 3 + idx(d); if (q.b / 32 % 7 == (unsigned)n) break; } HSH_ITERATE_END(t); obs("positions %ld %ld", n, n == hsh_entries(t) ? sum : 0); break; }
		case 11: obs("readonly %d", hsh_readonly(t, 1)); hsh_retrieve(t, nm(q.b / 32)); hsh_readonly(t, 0); break;
		case 12: if (hstr[i]) { hsh_key_strings(t); } break;
		default: hsh_destroy(t); t = nullptr; obs("destroy"); }
	}
	void make_set(unsigned i, bool str) { sstr[i] = str; s[i] = str ? set_create(nullptr, nullptr) : set_create(hsh_pointer_hash, hsh_pointer_compare); }
	void do_set(const Step &q)
	{
		unsigned i = q.a % M; set_Set &t = s[i]; if (!t) { make_set(i, q.b & 1); obs("set"); }
		unsigned j = (i + (q.a / M % M)) % M; if (!s[j]) make_set(j, sstr[i]); bool ok = sstr[i] == sstr[j]; unsigned w = q.b / 32;
		switch (q.b / 2 % 16) {
		case 0: case 1: obs("insert %d", set_insert(t, nm(w))); break;
		case 2: { unsigned n = w % NU; long r = 0; for (unsigned x = 0; x < n; x++) r += set_insert(t, nm(x)); obs("inserts %ld", r); break; }
		case 3: obs("delete %d", set_delete(t, nm(w))); break;
		case 4: obs("member %d", set_member(t, nm(w))); break;
		case 5: begin(0); ended(set_iterate(t, cb1)); break;
		case 6: { int x = 4; begin(0); ended(set_iterate_arg(t, cb1a, &x)); break; }
		case 7: if (ok) { set_add(t, s[j]); obs("add %d", set_count(t)); } break;
		case 8: if (ok) { set_del(t, s[j]); obs("del %d", set_count(t)); } break;
		case 9: case 10: case 11: if (ok) { unsigned o = q.b / 2 % 16; set_Set z = o == 9 ? set_union(t, s[j]) : o == 10 ? set_inter(t, s[j]) : set_diff(t, s[j]); obs("combined %d equal %d", set_count(z), set_equal(z, t)); set_destroy(z); } break;
		case 12: { set_Stats z = set_get_stats(t); obs("entries %lu", z->entries); xfree(z); obs_print("stats", [&](FILE *f) { set_print_stats(t, f); }); break; }
		case 13: { set_Position z; void *e; long n = 0; SET_ITERATE(t, z, e) { n++; if (w % 7 == (unsigned)n) break; } SET_ITERATE_END(t); obs("positions %ld", n); break; }
		case 14: obs("get %d %d", set_get_hash(t) == hsh_pointer_hash, set_get_compare(t) == hsh_pointer_compare); break;
		default: set_destroy(t); t = nullptr; obs("destroy"); }
	}
	void do_list(const Step &q)
	{
		unsigned i = q.a % M, w = q.b / 16; lst_List &t = l[i]; if (!t) { t = lst_create(); obs("list"); }
		switch (q.b % 16) {
		case 0: case 1: lst_append(t, dt(w)); break;
		case 2: for (unsigned n = w % NU; n--;) lst_append(t, dt(n)); break;
		case 3: lst_push(t, dt(w)); break;
		case 4: obs("pop %d", idx(lst_pop(t))); break;
		case 5: obs("top %d", idx(lst_top(t))); break;
		case 6: if (lst_length(t)) obs("nth %d", idx(lst_nth_get(t, 1 + w % lst_length(t)))); break;
		case 7: if (lst_length(t)) lst_nth_set(t, 1 + w % lst_length(t), dt(w / 3)); break;
		case 8: obs("member %d", lst_member(t, dt(w))); break;
		case 9: begin(w); ended(lst_iterate(t, cb1)); break;
		case 10: { int x = 3; begin(w); ended(lst_iterate_arg(t, cb1a, &x)); break; }
		case 11: lst_truncate(t, w % 20); break;
		case 12: if (lst_length(t)) lst_truncate_position(t, lst_nth_position(t, 1 + w % lst_length(t))); break;
		case 13: { lst_Position z = lst_init_position(t); long sum = 0; for (; z; z = lst_next_position(z)) { sum += idx(lst_get_position(z)); if (w % 5 == 0) lst_set_position(z, dt(w)); } obs("walk %ld last %d", sum, lst_last_position(t) ? idx(lst_get_position(lst_last_position(t))) : -1); break; }
		case 14: { lst_List z = lst_create(); lst_append(z, dt(w)); lst_push(z, dt(w / 2)); obs("other %u", lst_length(z)); lst_destroy(z); break; }
		default: lst_destroy(t); t = nullptr; obs("destroy"); }
		if (t) obs("length %u", lst_length(t));
	}
	void do_sl(const Step &q)
	{
		unsigned i = q.a % M, w = q.b / 8; sl_List &t = k[i]; if (!t) { t = sl_create(ncmp, nkey, q.b & 1 ? nprint : nullptr); obs("skip list"); }
		auto ins = [&](unsigned n) { if (!sl_find(t, nm(n))) sl_insert(t, nm(n)); }; auto del = [&](unsigned n) { if (sl_find(t, nm(n))) sl_delete(t, nm(n)); };
		switch (q.b / 2 % 8) {
		case 0: ins(w); break;
		case 1: for (unsigned n = 0; n < w % NU; n++) ins(n * 5); break;
		case 2: del(w); break;
		case 3: for (unsigned n = 0; n < w % NU; n++) del(n); break;
		case 4: obs("find %d", idx(sl_find(t, nm(w)))); break;
		case 5: begin(w); ended(sl_iterate(t, cb1)); break;
		case 6: { int x = 2; begin(w); ended(sl_iterate_arg(t, cb1a, &x)); break; }
		default: sl_destroy(t); t = nullptr; obs("destroy"); }
	}
	void do_arg(const Step &q)
	{
		unsigned i = q.a % M, w = q.b / 16; arg_List &t = a[i]; Buf b(q.s);
		if (!t) { if (q.b & 1) t = arg_create(); else t = arg_argify(b, w % 4); agrow[i] = false; }
		if (agrow[i] && q.b / 2 % 8 != 3 && q.b / 2 % 8 < 7) { arg_finish(t); agrow[i] = false; }
		switch (q.b / 2 % 8) {
		case 0: arg_add(t, b); break;
		case 1: { Buf n(q.s, false); arg_addn(t, n, (int)q.s.size()); break; }
		case 2: for (unsigned n = w % 40; n--;) arg_add(t, nm(n)); break;
		case 3: { Buf n(q.s, false); arg_grow(t, n, (int)q.s.size()); agrow[i] = !q.s.empty() || agrow[i]; break; }
		case 4: if (arg_count(t)) obs_s("item", arg_get(t, (int)(w % arg_count(t)))); break;
		case 5: { int c; char **v; arg_get_vector(t, &c, &v); for (int n = 0; n < c; n++) obs_s("word", v[n]); break; }
		case 6: { arg_List z = arg_argify(b, w % 4); obs("words %d", arg_count(z)); arg_destroy(z); break; }
		default: arg_destroy(t); t = nullptr; agrow[i] = false; obs("destroy"); }
		if (t && !agrow[i]) obs("count %d", arg_count(t));
	}
	void do_ms(const Step &q)
	{
		unsigned i = q.a % M; mem_String &t = ms[i]; if (!t) { t = mem_create_strings(); msgrow[i] = false; obs("strings"); } Buf b(q.s), n(q.s, false); unsigned o = q.b % 8;
		if (msgrow[i] && o != 3 && o < 6) { obs_s("finish", mem_finish(t)); msgrow[i] = false; }
		switch (o) {
		case 0: case 1: obs_s("copy", mem_strcpy(t, b)); break;
		case 2: obs_s("copy", mem_strncpy(t, n, (int)q.s.size())); break;
		case 3: if (!q.s.empty()) mem_grow(t, n, (int)q.s.size()), msgrow[i] = true; break;
		case 4: { mem_StringStats z = mem_get_string_stats(t); obs("%d strings %d bytes", z->count, z->bytes); xfree(z); break; }
		case 5: obs_print("stats", [&](FILE *f) { mem_print_string_stats(t, f); }); break;
		case 6: for (unsigned x = q.b / 8 % 60; x--;) if (!msgrow[i]) mem_strcpy(t, nm(x)); break;
		default: mem_destroy_strings(t); t = nullptr; msgrow[i] = false; obs("destroy"); }
	}
	void do_mo(const Step &q)
	{
		unsigned i = q.a % M; mem_Object &t = mo[i]; auto &v = objs[i]; if (!t) { t = mem_create_objects(16); obs("objects"); }
		switch (q.b % 8) {
		case 0: case 1: { void *z = mem_get_object(t); memset(z, 0x33, 16); v.push_back(z); break; }
		case 2: { char *z = (char *)mem_get_empty_object(t); int r = 0; for (int x = 0; x < 16; x++) r |= z[x]; obs("empty %d", r); memset(z, 0x44, 16); v.push_back(z); break; }
		case 3: if (!v.empty()) { size_t n = q.b / 8 % v.size(); mem_free_object(t, v[n]); v.erase(v.begin() + n); } break;
		case 4: { mem_ObjectStats z = mem_get_object_stats(t); obs("objects %d %d %d %d", z->total, z->used, z->reused, z->size); xfree(z); break; }
		case 5: obs_print("stats", [&](FILE *f) { mem_print_object_stats(t, f); }); break;
		case 6: for (unsigned x = q.b / 8 % 60; x--;) v.push_back(mem_get_object(t)); break;
		default: mem_destroy_objects(t); t = nullptr; v.clear(); obs("destroy"); }
	}
	void do_stk(const Step &q)
	{
		unsigned i = q.a % M, w = q.b / 8; stk_Stack &t = st[i]; if (!t) { t = stk_create(); obs("stack"); }
		switch (q.b % 8) { case 0: case 1: stk_push(t, dt(w)); break; case 2: for (unsigned n = w % 50; n--;) stk_push(t, dt(n)); break; case 3: obs("pop %d", idx(stk_pop(t))); break; case 4: obs("top %d", idx(stk_top(t))); break; case 5: obs("empty %d", stk_isempty(t)); break; case 6: for (unsigned n = w % 50; n--;) obs("pop %d", idx(stk_pop(t))); break; default: stk_destroy(t); t = nullptr; obs("destroy"); }
	}
	void do_str(const Step &q)
	{
		Buf b(q.s), n(q.s, false); unsigned o = q.b % 12; int len = (int)q.s.size();
		if (sgrow && o != 4) { obs_s("finish", str_finish()); sgrow = false; }
		switch (o) {
		case 0: obs_s("find", str_find(b)); break;
		case 1: obs_s("findn", str_findn(n, len)); break;
		case 2: { const char *c = str_copy(b); obs_s("copy", c); break; }
		case 3: { const char *c = str_copyn(n, len); obs_s("copyn", c); break; }
		case 4: if (len && global) { str_grow(n, len); sgrow = true; } break;
		case 5: { int e = str_exists(b); if (!unique) obs("exists %d", e); break; }
		case 6: { const char *u = str_unique(nm(q.b / 12)); obs("unique %d", !strncmp(u, nm(q.b / 12), strlen(nm(q.b / 12)))); unique = true; break; }   // its counter goes on, so that which strings are there is not the same each time
		case 7: for (unsigned x = q.b / 12 % NU; x--;) str_find(nm(x)); break;
		case 8: { str_Stats z = str_get_stats(); if (!unique) obs("strings %d %d %d", z->count, z->bytes, z->retrievals); xfree(z); break; }
		case 9: if (!unique) obs_print("stats", [&](FILE *f) { str_print_stats(f); }); break;
		case 10: obs("same %d", str_find(b) == str_findn(n, len)); break;
		default: if (!logging && !src && concretes.empty() && q.b / 12 % 3 == 0) { str_destroy(); global = unique = false; obs("destroy"); return; } break; }
		global = true;
	}
	void do_pool(const Step &q)
	{
		unsigned i = q.a % M; str_Pool &t = p[i]; Buf b(q.s), n(q.s, false); int len = (int)q.s.size(); if (!t) { t = str_pool_create(); pgrow[i] = false; obs("pool"); } unsigned o = q.b % 14;
		if (pgrow[i] && o != 3 && o != 13) { obs_s("finish", str_pool_finish(t)); pgrow[i] = false; }
		switch (o) {
		case 0: obs_s("find", str_pool_find(t, b)); break;
		case 1: obs_s("copy", str_pool_copy(t, b)); break;
		case 2: obs_s("copyn", str_pool_copyn(t, n, len)); break;
		case 3: if (len) { str_pool_grow(t, n, len); pgrow[i] = true; } break;
		case 4: obs("exists %d", str_pool_exists(t, b)); break;
		case 5: for (unsigned x = q.b / 14 % NU; x--;) str_pool_find(t, nm(x)); break;
		case 6: { str_Stats z = str_pool_get_stats(t); obs("strings %d %d", z->count, z->bytes); xfree(z); break; }
		case 7: obs_print("stats", [&](FILE *f) { str_pool_print_stats(t, f); }); break;
		case 8: begin(0); ended(str_pool_iterate(t, cbs)); break;
		case 9: { int x = 6; begin(0); ended(str_pool_iterate_arg(t, cbsa, &x)); break; }
		case 10: { int x = 6; begin(1); cnt = 0; int r = str_pool_iterate_arg(t, cbsa, &x); obs("stopped %ld %d", cnt, r); break; }
		case 11: { str_Position z; const char *K = nullptr; long m = 0; for (z = str_pool_init_position(t); z; z = str_pool_next_position(t, z)) { str_pool_get_position(z, (char const *const *)&K); for (const char *c = K; *c; c++) m += *c; } STR_ITERATE_END(t); obs("positions %ld", m); break; }
		case 12: obs("readonly %d", str_pool_readonly(t, 1)); str_pool_readonly(t, 0); break;
		default: str_pool_destroy(t); t = nullptr; pgrow[i] = false; obs("destroy"); }
	}
	void do_tim(const Step &q)
	{
		int n = q.a % 8; if (!timers.count(n)) { tim_start(user.name[n]); timers.insert(n); obs("start"); }
		vf.real += q.b * 1000; vf.self_u += q.b * 300; vf.self_s += q.b * 100;
		switch (q.b % 6) { case 0: tim_start(user.name[n]); break; case 1: tim_stop(user.name[n]); obs("time %.3f", tim_get_real(user.name[n])); break; case 2: tim_reset(user.name[n]); break; case 3: tim_stop(user.name[n]); obs("times %.3f %.3f %.3f", tim_get_real(user.name[n]), tim_get_user(user.name[n]), tim_get_system(user.name[n])); break; case 4: obs_print("timer", [&](FILE *f) { tim_print_timer(f, user.name[n]); }); break; default: { char *t = nullptr; size_t z = 0; FILE *h = open_memstream(&t, &z); tim_print_timers(h); fclose(h); free(t); } }
	}
	void do_reg(const Step &q)
	{
		unsigned i = q.b / 8 % 30; bool d = q.a & 1; bool *r = d ? reg_d : reg_f; dbg_Type f = (q.a / 2 % 2) << 30 | 1ul << i; unsigned j = i + 0; if (q.a / 2 % 2) j = 30 + i % 10, f = 1ul << 30 | 1ul << (i % 10);
		if (!r[j]) { r[j] = true; if (d) dbg_register(f, user.name[j]); else flg_register(f, user.name[j]); obs("register %u", j); }
		switch (q.b % 8) { case 0: case 1: if (d) dbg_set(user.name[j]); else flg_set(user.name[j]); break; case 2: { std::string s = "-" + std::string(user.name[j]); if (d) dbg_set(s.c_str()); else flg_set(s.c_str()); break; } case 3: if (d) dbg_set("none"); else flg_set("none"); break; case 4: if (!d) flg_set("all"), flg_set("none"); break; case 5: obs_print("list", [&](FILE *h) { if (d) dbg_list(h); else flg_list(h); }); break; case 6: if (!d) obs_s("name", flg_name(f)); break; default: break; }
		obs("test %d", !!(d ? dbg_test(f) : flg_test(f)));
	}
	void do_src(const Step &q)
	{
		Buf n(q.s, false), b(q.s); int len = (int)q.s.size(); static const char *names[] = { "a.c", "dir/b.h", "c" };
		if (!src) { src_new_file(names[q.a % 3]); src_new_line(1); src_line("first line\n", 11); src = true; global = true; }
		switch (q.b % 10) {
		case 0: case 1: obs_s("line", src_line(n, len)); break;
		case 2: src_new_file(names[q.a % 3]); break;
		case 3: src_new_line((int)(q.b / 10)); break;
		case 4: { std::string m = "# " + std::to_string(1 + q.b / 10) + " \"" + names[q.a % 3] + "\" 1"; src_cpp_line(m.c_str(), (int)m.size()); break; }
		case 5: case 6: toks.push_back(src_get((int)(q.b / 10 % 9))); break;
		case 7: src_advance((int)(q.b / 10 % 9)); break;
		case 8: if (!toks.empty()) { src_Type t = toks[q.b / 10 % toks.size()]; obs("token %d %d %d", src_linenumber(t), src_offset(t), src_length(t)); obs_s("file", src_filename(t)); obs_s("text", src_source_line(t)); obs_print("error", [&](FILE *f) { src_print_error(f, t, "oops %d", 3); src_parse_error(f, t, "parse error `T_A' x"); src_print_message(f, t, "m"); }); } break;
		default: { src_Stats z = src_get_stats(); obs("source %d %d %d", z->lines_used, z->lines_bytes, z->tokens_total); xfree(z); obs_print("stats", [&](FILE *f) { src_print_stats(f); }); } }
		if (q.a % 17 == 16) { src_destroy(); src = false; toks.clear(); obs("destroy"); }
	}
	void do_log(const Step &q)
	{
		if (logname.empty()) return;
		if (!logging) { log_option(q.b & 1 ? LOG_OPTION_FULL : LOG_OPTION_NO_FULL); if (q.b & 2) log_file("ident", (logname + (q.b & 4 ? "/sub%H/log.%M" : "/log")).c_str()); if (q.b & 8) log_syslog("ident"); logging = q.b & 10; if (logging) global = true; }
		if (logging) { log_info("value %u %s\n", q.b, q.s.substr(0, 300).c_str()); if (q.b & 16) log_error("routine", "bad %d", 3); vf.real += 61000000; if (q.b & 32) { log_close(); logging = false; obs("log closed"); } }
	}
	void do_code(const Step &q)
	{
		unsigned long v = (unsigned long)q.b * 2654435761u >> q.a % 40; obs_s("b64", b64_encode(v)); obs("%d", b64_decode(b64_encode(v)) == v); obs_s("b26", b26_encode(v)); obs("prime %d next %lu", prm_is_prime(q.b), prm_next_prime(q.b % 100000)); obs_s("soundex", txt_soundex(nm(q.b))); obs_s("version", maa_version());
		unsigned long *bits = bits_buf; if (q.a % 3 == 0) bit_set(bits, q.b % 64); else if (q.a % 3 == 1) bit_clr(bits, q.b % 64); obs("bit %d count %d", bit_tst(bits, q.b % 64), bit_cnt(bits));
	}
	unsigned long bits_buf[1] = {};
	void do_wrap(const Step &q)
	{
		size_t n = 1 + q.b % 3000; char *x = (char *)xmalloc(n); memset(x, 'm', n); char *y = (char *)xcalloc(1 + q.a % 50, 1 + q.b % 60); size_t cn = (1 + q.a % 50) * (1 + q.b % 60); int r = 0; for (size_t i = 0; i < cn; i++) r |= y[i]; obs("zero %d", r);
		size_t n2 = 1 + q.b / 7 % 6000; x = (char *)xrealloc(x, n2); for (size_t i = 0; i < n && i < n2; i++) if (x[i] != 'm') r = 1; memset(x, 'n', n2); obs("kept %d", r); Buf b(q.s); char *z = xstrdup(b); obs_s("dup", z); xfree(z); xfree(y); xfree(x);
	}
	void do_err(const Step &q) { if (q.b & 1) err_set_program_name(q.b & 2 ? "prog" : "/a/path/to/prog"); obs_s("program", err_program_name()); if (q.b & 4) err_warning(q.b & 8 ? "routine" : nullptr, "a warning %d", 3); }
	static void in_child() {}
	void do_pr(const Step &q)
	{
		static const char *cmd[] = { "true", "false", "'/bin/cat' /dev/null", "/nonexistent/x", "", "sh -c 'exit 3'" }; char out[64]; int in, o, e; std::string c = cmd[q.a % 6];
		if (q.a / 6 % 4 == 1) c += " " + std::string(q.a % 5000, 'x'); else if (q.a / 6 % 4 == 2) for (unsigned i = 0; i < 3 + q.a % 40; i++) c += " x" + std::to_string(i);
		Buf b(c); signal(SIGPIPE, SIG_IGN);
		switch (q.b % 6) {
		case 0: obs("spawn %d", pr_spawn(b)); break;
		case 1: obs("filter %d", pr_filter("cat", "some text", 9, out, 64)); break;
		case 2: { int pid = pr_open(q.a & 1 ? "cat" : cmd[2], PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &o, nullptr); (void)pid; pr_close_nowait(in); obs("close %d", pr_close(o)); break; }
		case 3: { int pid = pr_open2(b, in_child, PR_USE_STDIN | PR_CREATE_STDOUT | PR_CREATE_STDERR, nullptr, &o, &e); pr_close_nowait(o); obs("wait %d", pr_wait(pid)); obs("again %d", pr_close(e)); break; }
		case 4: { pr_open("cat", PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &o, nullptr); int pid = pr_open("cat", PR_USE_STDIN | PR_USE_STDOUT | PR_STDERR_TO_STDOUT, &o, nullptr, nullptr); obs("first %d", pr_close(in)); obs("second %d", pr_wait(pid)); break; }
		default: { int pid = pr_open(b, PR_USE_STDIN | PR_USE_STDOUT | PR_USE_STDERR, nullptr, nullptr, nullptr); obs("none %d", pr_wait(pid)); } }
	}
	void do_prs(const Step &q) { int n = q.a % 12; if (!concretes.count(n)) { Buf b(q.s); std::string s = "T_" + std::to_string(n); Buf c(s); prs_register_concrete(c, b); concretes.insert(n); global = true; } obs_s("concrete", prs_concrete(("T_" + std::to_string(n)).c_str())); obs_s("concrete", prs_concrete("T_unknown")); }
	void step(const Step &q)
	{
		switch (q.op) { case HSH: do_hash(q); break; case SET: do_set(q); break; case LST: do_list(q); break; case SL: do_sl(q); break; case ARG: do_arg(q); break; case MS: do_ms(q); break; case MO: do_mo(q); break; case STK: do_stk(q); break; case STR: do_str(q); break; case POOL: do_pool(q); break; case TIM: do_tim(q); break; case REG: do_reg(q); break; case SRC: do_src(q); break; case LOG: do_log(q); break; case CODE: do_code(q); break; case WRAP: do_wrap(q); break; case ERR: do_err(q); break; case PR: do_pr(q); break; case PRS: do_prs(q); break; }
	}
	// destroy all objects, in an order that depends on n; what the modules keep stays
	void destroy_objects(unsigned n)
	{
		std::vector<std::function<void()>> f;
		for (int i = 0; i < M; i++) {
			if (h[i]) f.push_back([this, i] { hsh_destroy(h[i]); h[i] = nullptr; }); if (s[i]) f.push_back([this, i] { set_destroy(s[i]); s[i] = nullptr; }); if (l[i]) f.push_back([this, i] { lst_destroy(l[i]); l[i] = nullptr; }); if (k[i]) f.push_back([this, i] { sl_destroy(k[i]); k[i] = nullptr; });
			if (a[i]) f.push_back([this, i] { arg_destroy(a[i]); a[i] = nullptr; }); if (ms[i]) f.push_back([this, i] { mem_destroy_strings(ms[i]); ms[i] = nullptr; }); if (mo[i]) f.push_back([this, i] { mem_destroy_objects(mo[i]); mo[i] = nullptr; objs[i].clear(); }); if (st[i]) f.push_back([this, i] { stk_destroy(st[i]); st[i] = nullptr; }); if (p[i]) f.push_back([this, i] { str_pool_destroy(p[i]); p[i] = nullptr; });
		}
		if (src) f.push_back([this] { src_destroy(); src = false; toks.clear(); }); if (logging) f.push_back([this] { log_close(); logging = false; });
		for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[mix64(n + i) % i]);
		for (auto &x : f) x();
	}
};
inline Program program(Gen &g, unsigned maxn, const std::vector<unsigned> &weights, unsigned minn = 1)
{
	Program p; unsigned tot = 0; for (unsigned w : weights) tot += w; int only = g.chance(1, 3) ? (int)g.draw(NOPS - 1) : -1; if (only >= 0 && !weights[only]) only = -1;
	for (Loop l(g, maxn, minn); l.more();) {
		Step q; unsigned r = (unsigned)g.draw(tot - 1); q.op = 0; while (r >= weights[q.op]) r -= weights[q.op++]; if (only >= 0 && g.chance(3, 4)) q.op = only;
		q.a = (unsigned)g.draw(200); q.b = (unsigned)g.draw(20000); if (q.op == ARG || q.op == MS || q.op == STR || q.op == POOL || q.op == SRC || q.op == WRAP || q.op == LOG || q.op == PRS) { q.s = content(g); if (q.op == SRC || q.op == ARG) { if (q.s.size() > 2000) q.s.resize(2000); } }
		g.note("%s %u/%u%s%s", op_name[q.op], q.a, q.b, q.s.empty() ? "" : " ", q.s.empty() ? "" : printable(q.s, 40).c_str()); p.push_back(q);
	}
	return p;
}
}
