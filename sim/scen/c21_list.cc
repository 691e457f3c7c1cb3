/* C21: lists driven directly: every sequence of operations, with several live iterators, against a reference. */
#include "../ref.h"
#include "../core.h"
#include <pthread.h>
#include <unistd.h>
extern "C" {
#include "list.h"
}
struct El { int id, key; };
enum { PASSED, MUST, MAY };
struct It { ListIterator h = nullptr; unsigned char st[40]; int last = 0; bool ended = false; };
static struct Ls { List l; std::vector<int> L; int nid, key[40]; El *el[40]; unsigned char state[40]; It it[2]; bool del, collect; std::vector<int> seen; S seq; } g;   /* state: 1 in the list, 2 taken out, 3 deleted */
static void fdel(void *x) { El *e = (El*)x; REQUIRE(e && e->id > 0 && e->id <= g.nid && g.el[e->id] == e, "%s: the deletion function is called for something that is no element", g.seq.c_str()); REQUIRE(g.state[e->id] == 1, "%s: element %d is deleted although it %s", g.seq.c_str(), e->id, g.state[e->id] == 3 ? "has been deleted before" : "was taken out"); g.state[e->id] = 3; }
static int fkey(void *x, void *k) { return ((El*)x)->key == *(int*)k; }
static int fcoll(void *x, void *) { g.seen.push_back(((El*)x)->id); return 0; }
static int fcmp(void *x, void *y) { return ((El*)x)->key - ((El*)y)->key; }
static int pos(int id) { for (size_t i = 0; i < g.L.size(); i++) if (g.L[i] == id) return i; return -1; }
static El *fresh(int key) { int id = ++g.nid; g.el[id]->id = id; g.el[id]->key = g.key[id] = key; g.state[id] = 1; return g.el[id]; }
static void added(int id, size_t at) { /* how each iterator sees the new element */
    for (auto &i : g.it) { int l = at > 0 ? g.L[at-1] : 0, r = at < g.L.size() ? g.L[at] : 0; unsigned char s; if (r && i.st[r] == PASSED) s = PASSED; else if (l && i.st[l] == MUST) s = MUST; else if (l && i.st[l] == MAY) s = MAY; else if (l && l == i.last && !i.ended) s = MUST; else s = MAY; i.st[id] = s; } g.L.insert(g.L.begin() + at, id); }
static void gone(size_t at) { int id = g.L[at]; g.L.erase(g.L.begin() + at); for (auto &i : g.it) if (i.last == id) i.last = 0; }
static void reset(It &i) { memset(i.st, MUST, sizeof i.st); i.last = 0; i.ended = false; }
static void came(It &i, El *e, int key, const char *w) { /* the iterator has returned e */
    const char *q = g.seq.c_str(); if (!e) { for (int id : g.L) REQUIRE(i.st[id] != MUST || (key >= 0 && g.key[id] != key), "%s: %s ends although element %d remains", q, w, id); for (int id : g.L) i.st[id] = PASSED; i.ended = true; i.last = 0; return; }
    int at = -1; for (int k = 1; k <= g.nid; k++) if (g.el[k] == e) at = k; REQUIRE(at > 0, "%s: %s returns something that is no element", q, w); int p = pos(at); REQUIRE(p >= 0, "%s: %s returns element %d, which is no longer in the list", q, w, at); REQUIRE(i.st[at] != PASSED, "%s: %s returns element %d again or out of order", q, w, at); REQUIRE(key < 0 || e->key == key, "%s: %s returns an element that does not match", q, w);
    for (int k = 0; k < p; k++) REQUIRE(i.st[g.L[k]] != MUST || (key >= 0 && g.key[g.L[k]] != key), "%s: %s skips element %d", q, w, g.L[k]); for (int k = 0; k <= p; k++) i.st[g.L[k]] = PASSED; i.last = at; i.ended = false; }
static void verify() { const char *q = g.seq.c_str(); g.seen.clear(); int k = 0; REQUIRE(!list_find_first(g.l, fcoll, &k), "%s: something is found", q); REQUIRE(g.seen == g.L, "%s: the list has %zu elements or another order, %zu expected", q, g.seen.size(), g.L.size()); REQUIRE(list_count(g.l) == (int)g.L.size() && !list_is_empty(g.l) == !g.L.empty(), "%s: the list counts %d elements instead of %zu", q, list_count(g.l), g.L.size()); void *v = list_peek(g.l); REQUIRE(v == (g.L.empty() ? nullptr : g.el[g.L[0]]), "%s: the first element is wrong", q);
    for (int id = 1; id <= g.nid; id++) { bool in = pos(id) >= 0; REQUIRE(in == (g.state[id] == 1), "%s: element %d %s", q, id, in ? "is in the list although it was deleted" : "has disappeared"); } }
static const int NOP = 22;
static const char *ON[] = {"append0", "append1", "prepend1", "pop", "delete_all1", "delete_all0", "sort", "first0", "A.next", "A.insert", "A.remove", "A.delete", "A.find1", "A.reset", "A.recreate", "B.next", "B.insert", "B.remove", "B.delete", "B.find1", "B.reset", "B.recreate"};
static void op(int o, bool alt) {
    g.seq += S(ON[o]) + " "; const char *q = g.seq.c_str(); int k0 = 0, k1 = 1; El *e;
    switch (o) {
    case 0: case 1: e = fresh(o); { void *v = alt ? list_enqueue(g.l, e) : list_append(g.l, e); REQUIRE(v == e, "%s: the insertion fails", q); } added(e->id, g.L.size()); break;
    case 2: e = fresh(1); { void *v = alt ? list_push(g.l, e) : list_prepend(g.l, e); REQUIRE(v == e, "%s: the insertion fails", q); } added(e->id, 0); break;
    case 3: e = (El*)(alt ? list_dequeue(g.l) : list_pop(g.l)); REQUIRE(e == (g.L.empty() ? nullptr : g.el[g.L[0]]), "%s: not the first element is taken", q); if (e) { g.state[e->id] = 2; gone(0); } break;
    case 4: case 5: { std::vector<int> d; for (int id : g.L) if (g.key[id] == (o == 4)) d.push_back(id); int n = list_delete_all(g.l, fkey, o == 4 ? &k1 : &k0); REQUIRE(n == (int)d.size(), "%s: reports %d deletions instead of %zu", q, n, d.size()); for (int id : d) { REQUIRE(!g.del || g.state[id] == 3, "%s: element %d is not deleted", q, id); g.state[id] = 3; gone(pos(id)); } break; }
    case 6: list_sort(g.l, fcmp); std::stable_sort(g.L.begin(), g.L.end(), [](int a, int b) { return g.key[a] < g.key[b]; }); if (g.L.size() > 1) for (auto &i : g.it) reset(i); break;
    case 7: { e = nullptr; for (int id : g.L) if (g.key[id] == 0) { e = g.el[id]; break; } REQUIRE(list_find_first(g.l, fkey, &k0) == e, "%s: finds something else than the first match", q); break; }
    default: { It &i = g.it[o >= 15]; const char *n = o >= 15 ? "iterator B" : "iterator A"; switch ((o - 8) % 7) {
        case 0: came(i, (El*)list_next(i.h), -1, n); break;
        case 1: if (!i.last && !i.ended) break; { int at = i.last ? pos(i.last) : (int)g.L.size(); e = fresh(0); int id = e->id; REQUIRE(list_insert(i.h, e) == e, "%s: the insertion fails", q); added(id, at); break; }
        case 2: e = (El*)list_remove(i.h); REQUIRE(e == (i.last ? g.el[i.last] : nullptr), "%s: %s, which last returned %d, takes out another element or none", q, n, i.last); if (e) { g.state[e->id] = 2; gone(pos(e->id)); } break;
        case 3: { int id = i.last, r = list_delete(i.h); REQUIRE(r == !!id, "%s: %s, which last returned %d, reports %d deletions", q, n, id, r); if (id) { REQUIRE(!g.del || g.state[id] == 3, "%s: element %d is not deleted", q, id); g.state[id] = 3; gone(pos(id)); } break; }
        case 4: came(i, (El*)list_find(i.h, fkey, &k1), 1, n); break;
        case 5: list_iterator_reset(i.h); reset(i); break;
        case 6: list_iterator_destroy(i.h); i.h = list_iterator_create(g.l); reset(i); break; } } }
    verify();
}
static int g_init, g_len, g_first, g_second; static bool g_del;
static void run(const int *s, int n) {
    next_case(); g.L.clear(); g.nid = 0; g.seq.clear(); memset(g.state, 0, sizeof g.state); g.del = g_del; g.l = list_create(g_del ? fdel : nullptr); for (int i = 0; i < g_init; i++) { El *e = fresh(i % 2 == 0); list_append(g.l, e); g.L.push_back(e->id); } for (auto &i : g.it) { i.h = list_iterator_create(g.l); reset(i); }
    for (int k = 0; k < n; k++) op(s[k], k & 1); g.seq += "walk "; for (auto &i : g.it) while (!i.ended) came(i, (El*)list_next(i.h), -1, "an iterator");
    if (g.nid & 1) list_iterator_destroy(g.it[g.nid & 2 ? 0 : 1].h); g.seq += "destroy "; std::vector<int> rest = g.L; list_destroy(g.l); if (g_del) for (int id : rest) REQUIRE(g.state[id] == 3, "%s: element %d is not deleted with its list", g.seq.c_str(), id);
    /* what was released must be released once: two new lists share nothing */
    List a = list_create(nullptr), b = list_create(nullptr); REQUIRE(a != b, "%s: a list is released twice", g.seq.c_str()); ListIterator x = list_iterator_create(a), y = list_iterator_create(b), z = list_iterator_create(a); REQUIRE(x != y && y != z && x != z, "%s: an iterator is released twice", g.seq.c_str()); for (int k = 1; k <= 12; k++) { list_append(k % 2 ? a : b, g.el[k]); } list_iterator_reset(x); list_iterator_reset(y); for (int k = 1; k <= 12; k++) REQUIRE(list_next(k % 2 ? x : y) == g.el[k], "%s: a list node is released twice", g.seq.c_str()); REQUIRE(!list_next(x) && !list_next(y), "%s: a list node is released twice", g.seq.c_str()); list_destroy(a); list_destroy(b); }
static int ls_main(int, char **) { int s[16] = {g_first, g_second}; for (int i = 0; i < 40; i++) g.el[i] = new El(); std::function<void(int)> rec = [&](int k) { if (k == g_len) { run(s, k); return; } for (s[k] = 0; s[k] < NOP; s[k]++) rec(k + 1); }; rec(2); return 0; }
static void seqs(int len, int init, bool del) { g_len = len; g_init = init; g_del = del; g_first = pick(NOP, "operation 1"); g_second = pick(NOP, "operation 2"); Proc *p = start_proc("conmand", ls_main, {"list"}); settle(); REQUIRE(p->exited && p->code == 0, "ended with %d", p->code); outcome(fmt("%d", g_first)); }
SCENARIO(list_sequences, "C21", 0,0,0, 0,0,0, "every sequence of 4 (thorough: 5) of 22 operations (insertion at either end or before an iterator's element, taking out, deletion of one or all matching, search, sort, two iterators stepping, searching, removing, restarting) on lists of 0 to 4 elements, with or without a deletion function") { int init = pick(5, "initial elements"); bool del = pick(2, "deletion function"); seqs(g_thorough ? 5 : 4, init, del); }
/* iterating over many elements crosses the blocks in which nodes are allocated */
SCENARIO(list_long, "C21", 0,0,0, 0,0,0, "lists of 0 to 25 elements: filled at either end, alternate elements removed while iterating, refilled, sorted (every rotation and reversal, equal keys), destroyed, three times over") {
    static int n, rot; n = pick(26, "elements"); rot = pick(26, "rotation"); if (rot >= std::max(n, 1)) return; struct M { static int m(int, char **) { for (int rnd = 0; rnd < 3; rnd++) { next_case(); g = Ls(); g.del = true; for (int i = 0; i < 40; i++) g.el[i] = new El(); g.l = list_create(fdel); for (auto &i : g.it) { i.h = list_iterator_create(g.l); reset(i); } g.seq = fmt("round %d ", rnd);
        for (int i = 0; i < n; i++) { El *e = fresh(rnd == 1 ? (n - i + rot) % n / 2 : (i + rot) % n); if (rnd == 2) { list_prepend(g.l, e); added(e->id, 0); } else { list_append(g.l, e); added(e->id, g.L.size()); } } for (auto &i : g.it) { list_iterator_reset(i.h); reset(i); } verify(); op(6, 0); for (auto &i : g.it) { while (!i.ended) came(i, (El*)list_next(i.h), -1, "an iterator"); list_iterator_reset(i.h); reset(i); }
        for (int k = 0; !g.it[0].ended; k++) { op(8, 0); if (k % 2 == 0 && g.it[0].last) op(k % 4 ? 10 : 11, 0); if (k % 3 == 0) op(15, 0); } for (int k = 0; k < 5; k++) op(k % 2, k & 1); while (!g.it[1].ended) op(15, 0); while (!g.L.empty()) op(3, g.L.size() & 1); op(0, 0); op(1, 0); list_destroy(g.l); }
        size_t m = 0; for (int k = 0; k < 60; k++) { next_case(); List l = list_create(nullptr); ListIterator i = list_iterator_create(l), j = list_iterator_create(l); for (int e = 1; e <= n; e++) list_append(l, g.el[e]); for (int e = 0; e < n / 3; e++) { list_next(i); list_remove(i); } if (k & 1) list_iterator_destroy(j); if (k & 2) while (list_pop(l)) ; list_destroy(l); if (k == 20) m = mem_live(); } REQUIRE(mem_live() == m, "memory in use grows with every list that is destroyed"); return 0; } };
    Proc *p = start_proc("conmand", M::m, {"list"}); settle(); REQUIRE(p->exited && p->code == 0, "ended with %d", p->code); }
/* threads sharing a list */
static List tl; static int t_done; static std::vector<int> t_got[3]; static El t_el[9];
static void *t_put(void *a) { int b = (long)a; for (int i = 0; i < 3; i++) list_append(tl, &t_el[b + i]); t_done++; return 0; }
static void *t_take(void *a) { int k = (long)a; for (int i = 0; i < 4; i++) { El *e = (El*)list_pop(tl); if (e) t_got[k].push_back(e->id); } t_done++; return 0; }
static void *t_walk(void *) { ListIterator i = list_iterator_create(tl); int prev = 0; while (El *e = (El*)list_next(i)) { REQUIRE(e->id > prev || (e->id > 3) != (prev > 3), "an iterator goes backwards: %d after %d", e->id, prev); prev = e->id; } list_iterator_destroy(i); t_done++; return 0; }
static int th_main(int, char **v) { int mode = atoi(v[1]); tl = list_create(nullptr); for (int i = 0; i < 9; i++) t_el[i] = {i + 1, 0}; pthread_t t; pthread_create(&t, 0, t_put, (void*)0l); pthread_create(&t, 0, mode ? t_put : t_walk, (void*)3l); pthread_create(&t, 0, t_take, (void*)0l); if (mode == 2) pthread_create(&t, 0, t_take, (void*)1l); int p[2]; char c; if (pipe(p) == 0) read(p[0], &c, 1); return 0; }
SCENARIO(list_threads, "C21", 3,0,0, 4,0,0, "2 to 4 threads filling, emptying and walking one list, every interleaving of their mutex operations with at most 3 (thorough: 4) preemptions: each element is taken once, in order, or remains") {
    int mode = pick(3, "threads"); W->explore_sched = true; start_proc("conmand", th_main, {"list", fmt("%d", mode)}); settle(); REQUIRE(t_done == (mode == 2 ? 4 : 3), "a thread is stuck"); std::vector<int> all, n[2]; for (auto &g : t_got) { int p = 0, q = 0; for (int x : g) { all.push_back(x); int &r = x > 3 ? q : p; REQUIRE(x > r, "taken out of order"); r = x; } } g = Ls(); int k = 0; list_find_first(tl, fcoll, &k); for (int x : g.seen) all.push_back(x); std::sort(all.begin(), all.end()); std::vector<int> want; for (int i = 1; i <= (mode ? 6 : 3); i++) want.push_back(i); REQUIRE(all == want, "%zu elements came out of %zu", all.size(), want.size()); REQUIRE(list_count(tl) == (int)g.seen.size(), "the count is wrong"); outcome(fmt("%d %zu %zu", mode, g.seen.size(), t_got[0].size())); }
