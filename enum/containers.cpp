// All operation sequences on the containers and priority queues, each compared with an ideal container.
#include "en.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include <deque>
#include <set>
#include <map>
#include <algorithm>
extern "C" {
#include "vector.h"
#include "hashset/hashset.h"
#include "hashset/hashset_itr.h"
#include "pqueue_base.h"
#include "pqueue_tag.h"
#include "pqueue.h"
#include "mixed_radix.h"
#include "deque.h"
#include "lf_types.h"
void* hmx_new(size_t); void hmx_free(void*); void hmx_put(void*, int, int); int hmx_get(void*, int);
}
using std::vector;
static int depth(int q, int t) { return (int)en::argi("DEPTH", en::thorough() ? t : q); }
static char obj[64];
static void* O(long i) { return obj + i; }

static void do_vector() {
  size_t cap = (size_t)en::pick({1, 2, 3}, "initial capacity");
  vector_t v = vector_new(cap); vector<void*> m; int n = 0;
  int D = depth(7, 9);
  static void* many[4];
  for (int i = 0; i < D; i++) {
    int op = en::ch(12, "op"); en::step();
    switch (op) {
    case 0: vector_push(&v, O(++n)); m.push_back(O(n)); break;
    case 1: case 2: case 3: { int k = op == 1 ? 0 : op == 2 ? 1 : 3; for (int j = 0; j < k; j++) { many[j] = O(++n); m.push_back(many[j]); } vector_pushall(&v, many, (size_t)k); break; }
    case 4: { void* e = vector_pop(&v); void* w = nullptr; if (!m.empty()) { w = m.back(); m.pop_back(); } EN_REQ(e == w, "vector_pop returned %p instead of %p", e, w); break; }
    case 5: case 6: case 7: case 8: case 9: {
      size_t idx = (size_t[]){0, 1, 3, 6, 2}[op - 5]; bool grow = idx >= m.size();
      void** e = vector_at(&v, idx);
      if (grow) m.resize(idx + 1, nullptr);
      EN_REQ(e != nullptr, "vector_at returned NULL");
      EN_REQ(*e == m[idx], "vector_at(%zu) points to %p instead of %p", idx, *e, m[idx]);
      if (op == 9) { *e = O(++n); m[idx] = O(n); }
      break; }
    case 10: for (int j = 0; j < 16; j++) vector_vote(&v); break;
    case 11: while (!m.empty()) { void* e = vector_pop(&v); EN_REQ(e == m.back(), "vector_pop returned %p instead of %p", e, m.back()); m.pop_back(); } vector_vote(&v); break;
    }
    EN_REQ(vector_size(&v) == m.size(), "vector_size is %zu instead of %zu", vector_size(&v), m.size());
    for (size_t j = 0; j < m.size(); j++) EN_REQ(v.start[j] == m[j], "element %zu is %p instead of %p", j, v.start[j], m[j]);
    uint64_t h = en::mix(en::mix(v.end - v.start, (uint64_t)v.votes), (uint64_t)v.votes_required); std::map<void*, int> id; h = en::mix(h, m.size()); for (void** q = v.start; q < v.end; q++) h = en::mix(h, *q ? (uint64_t)id.emplace(*q, (int)id.size() + 1).first->second : 0); en::cut(h, D - i); // also what lies beyond the end
  }
  while (!m.empty()) { void* e = vector_pop(&v); EN_REQ(e == m.back(), "vector_pop returned %p instead of %p", e, m.back()); m.pop_back(); }
  vector_free(&v);
}

static void do_hashset() {
  int nb = en::ch(4, "nbits");
  hashset_t s = hashset_create((unsigned short)nb); std::set<long> m;
  static const long key[] = {0, 1, 2, 10, 18, 3, 7, 34}; // 2, 10, 18, 34 collide
  int nk = depth(0, 0) ? 8 : (en::thorough() ? 8 : 6); int D = depth(9, 12);
  for (int i = 0; i < D; i++) {
    int op = en::ch(3, "op"); en::step();
    if (op == 2) {
      hashset_itr_t it = hashset_iterator(s); std::set<long> seen;
      int rem = en::ch(2, "remove while iterating"), pos = 0;
      for (;;) {
        bool more = hashset_iterator_has_next(it); int r = hashset_iterator_next(it);
        EN_REQ(more == (r >= 0), "has_next is %d but next returned %d", more, r);
        if (r < 0) break;
        long e = (long)hashset_iterator_value(it);
        EN_REQ(m.count(e), "iteration yields %ld, which is not in the set", e);
        EN_REQ(seen.insert(e).second, "iteration yields %ld twice", e);
        if (rem && pos++ == 0) { EN_REQ(hashset_remove(s, (void*)e) != 0, "removing the current element %ld failed", e); m.erase(e); seen.erase(e); }
      }
      EN_REQ(seen == m, "iteration yields %zu of %zu elements", seen.size(), m.size());
      free(it);
    } else {
      long k = key[en::ch(nk, "key")];
      if (op == 0) {
        int r = hashset_add(s, (void*)k);
        if (k < 2) EN_REQ(r == -1, "adding the reserved value %ld returned %d", k, r);
        else { bool fresh = m.insert(k).second; EN_REQ(fresh ? r > 0 : r == 0, "adding %s element %ld returned %d", fresh ? "new" : "present", k, r); }
      } else {
        int r = hashset_remove(s, (void*)k); size_t had = m.erase(k);
        EN_REQ((r != 0) == (had != 0), "removing %ld returned %d, was %spresent", k, r, had ? "" : "not ");
      }
    }
    EN_REQ(hashset_num_items(s) == m.size(), "number of items is %zu instead of %zu", hashset_num_items(s), m.size());
    for (int j = 0; j < 8; j++) EN_REQ((hashset_is_member(s, (void*)key[j]) != 0) == (m.count(key[j]) != 0), "membership of %ld is reported wrongly", key[j]);
    uint64_t h = en::mix(en::mix(s->capacity, s->nitems), s->n_deleted_items); for (size_t j = 0; j < s->capacity; j++) h = en::mix(h, (uint64_t)s->items[j]); en::cut(h, D - i);
  }
  hashset_destroy(s);
}

static void do_hashmap() {
  int cap = en::ch(4, "capacity") + 1;
  void* h = hmx_new((size_t)cap); std::map<int, int> m; vector<int> ord; int D = depth(6, 8), val = 100;
  for (int i = 0; i < D; i++) {
    int k = en::ch(8, "key"); en::step();
    if (!m.count(k) && (int)m.size() >= cap) en::skip(); // more keys than the capacity are outside the contract
    if (!m.count(k)) ord.push_back(k);
    hmx_put(h, k, ++val); m[k] = val;
    for (auto& e : m) { int g = hmx_get(h, e.first); EN_REQ(g == e.second, "key %d maps to %d instead of %d", e.first, g, e.second); }
    uint64_t s = (uint64_t)cap; for (auto& e : m) s = en::mix(s, (uint64_t)e.first); for (int k2 : ord) s = en::mix(s, (uint64_t)k2); en::cut(s, D - i);
  }
  hmx_free(h);
}

static void do_deque() {
  deque_t d; memset(&d, 0xAA, sizeof d); deque_initialize(&d); std::deque<void*> m; int D = depth(9, 11), n = 0;
  for (int i = 0; i < D; i++) {
    int op = en::ch(4, "op"); en::step();
    if (op == 0) { deque_push_front(&d, O(++n)); m.push_front(O(n)); }
    else if (op == 1) { deque_push_back(&d, O(++n)); m.push_back(O(n)); }
    else {
      void* e = op == 2 ? deque_pop_front(&d) : deque_pop_back(&d); void* w = nullptr;
      if (!m.empty()) { if (op == 2) { w = m.front(); m.pop_front(); } else { w = m.back(); m.pop_back(); } }
      EN_REQ(e == w, "pop %s returned %p instead of %p", op == 2 ? "front" : "back", e, w);
    }
    EN_REQ(deque_size(&d) == m.size(), "size is %zu instead of %zu", deque_size(&d), m.size());
    EN_REQ(deque_is_empty(&d) == m.empty(), "is_empty is wrong");
    EN_REQ(deque_peek_front(&d) == (m.empty() ? nullptr : m.front()) && deque_peek_back(&d) == (m.empty() ? nullptr : m.back()), "peeking shows the wrong element");
    uint64_t h = 1; std::map<void*, int> id; for (void* p : m) h = en::mix(h, (uint64_t)id.emplace(p, (int)id.size() + 1).first->second); en::state(h); // nodes keep stale links: no pruning
  }
  int back = en::ch(2, "drain from");
  while (!m.empty()) { void* e = back ? deque_pop_back(&d) : deque_pop_front(&d); void* w = back ? m.back() : m.front(); EN_REQ(e == w, "draining yields %p instead of %p", e, w); if (back) m.pop_back(); else m.pop_front(); }
  EN_REQ(deque_is_empty(&d) && deque_size(&d) == 0, "deque not empty after draining");
}

static void do_radix() {
  int n = en::ch(en::thorough() ? 4 : 3, "digits") + 1; int maxr = en::thorough() ? 4 : 3;
  int* dig = (int*)calloc((size_t)n, sizeof(int)); int* rad = (int*)calloc((size_t)n, sizeof(int)); int* perm = (int*)calloc((size_t)n, sizeof(int));
  vector<int> ref(n, 0), used(n, 0); int total = 1;
  for (int i = 0; i < n; i++) { rad[i] = en::ch(maxr, "radix") + 1; total *= rad[i]; }
  for (int i = 0; i < n; i++) { vector<int> fr; for (int j = 0; j < n; j++) if (!used[j]) fr.push_back(j); int c = fr[en::ch((int)fr.size(), "permutation")]; perm[i] = c; used[c] = 1; }
  mixed_radix_int_t x; memset(&x, 0, sizeof x); x.size = n; x.digits = dig; x.radixes = rad; x.permutation = perm;
  for (int k = 0; k <= 2 * total; k++) {
    for (int drop = 0; drop <= n + 1; drop++) {
      int f = 1, w = 0; for (int i = drop; i < n; i++) { w += f * ref[i]; f *= rad[i]; }
      int g = mixed_radix_parent(&x, drop);
      EN_REQ(g == w, "after %d increments, value without %d digits is %d instead of %d", k, drop, g, w);
      if (!drop) EN_REQ(mixed_radix_to_int(&x) == w, "to_int is wrong");
    }
    for (int i = 0; i < n; i++) EN_REQ(dig[i] == ref[i], "digit %d is %d instead of %d after %d increments", i, dig[i], ref[i], k);
    mixed_radix_incr(&x); en::step();
    for (int i = 0; i < n; i++) { if (++ref[perm[i]] < rad[perm[i]]) break; ref[perm[i]] = 0; }
    uint64_t h = (uint64_t)total; for (int i = 0; i < n; i++) h = en::mix(h, (uint64_t)ref[i] * 8 + rad[i]); en::state(h);
  }
  free(dig); free(rad); free(perm);
}

// ---- priority queues
struct El { reaction_t r; };
static reaction_t rx[64];
static void do_pqueue() {
  size_t init = (size_t)en::ch(3, "initial size"); bool two = en::ch(2, "two queues");
  bool rev = en::ch(2, "equality on identity only") == 0;
  auto mk = [&]() { return pqueue_init(init, in_reverse_order, get_reaction_index, get_reaction_position, set_reaction_position, reaction_matches, print_reaction); };
  pqueue_t* q[2] = {mk(), two ? mk() : nullptr}; vector<reaction_t*> m[2]; int n = 0;
  (void)rev;
  int P = 3, D = depth(8, 10);
  auto has = [&](int k, reaction_t* r) { return std::find(m[k].begin(), m[k].end(), r) != m[k].end(); };
  auto minp = [&](int k) { unsigned long long b = ~0ull; for (auto r : m[k]) b = std::min<unsigned long long>(b, r->index); return b; };
  auto del = [&](int k, reaction_t* r) { m[k].erase(std::find(m[k].begin(), m[k].end(), r)); };
  for (int i = 0; i < D; i++) {
    int k = two ? en::ch(2, "queue") : 0; int op = en::ch(two ? 5 : 4, "op"); en::step();
    if (op == 0) { // insert
      reaction_t* r = &rx[n++]; memset(r, 0, sizeof *r); r->index = (unsigned long long)en::ch(P, "priority") * (1ull << 40) + 5; r->name = "r";
      EN_REQ(pqueue_insert(q[k], r) == 0, "insertion failed"); m[k].push_back(r);
    } else if (op == 1) {
      reaction_t* r = (reaction_t*)pqueue_pop(q[k]);
      if (m[k].empty()) EN_REQ(!r, "pop of an empty queue returned %p", (void*)r);
      else { EN_REQ(r, "pop of a queue with %zu elements returned NULL", m[k].size()); EN_REQ(has(k, r), "pop returned an element that is not queued"); EN_REQ(r->index == minp(k), "pop returned priority %llx while %llx is queued", r->index, minp(k)); del(k, r); }
    } else if (op == 2) {
      if (m[k].empty()) en::skip();
      reaction_t* r = m[k][en::ch((int)m[k].size(), "element")];
      pqueue_remove(q[k], r); del(k, r);
    } else if (op == 3) {
      reaction_t probe; memset(&probe, 0, sizeof probe); probe.index = (unsigned long long)en::ch(P, "priority") * (1ull << 40) + 5;
      reaction_t* r = (reaction_t*)pqueue_find_same_priority(q[k], &probe); bool any = false; for (auto e : m[k]) any |= e->index == probe.index;
      EN_REQ(any == (r != nullptr), "search for a priority %s", any ? "misses a queued element" : "finds an element that is not queued");
      if (r) EN_REQ(has(k, r) && r->index == probe.index, "search returned the wrong element");
    } else {
      pqueue_empty_into(&q[k], &q[1 - k]);
      for (auto r : m[1 - k]) m[k].push_back(r);
      m[1 - k].clear();
    }
    for (int j = 0; j < (two ? 2 : 1); j++) {
      EN_REQ(pqueue_size(q[j]) == m[j].size(), "size is %zu instead of %zu", pqueue_size(q[j]), m[j].size());
      reaction_t* t = (reaction_t*)pqueue_peek(q[j]);
      EN_REQ(m[j].empty() ? !t : (t && has(j, t) && t->index == minp(j)), "peek does not show a least element");
      for (int e = 0; e < n; e++) { void* f = pqueue_find_equal_same_priority(q[j], &rx[e]); EN_REQ((f == &rx[e]) == has(j, &rx[e]) && (!f || f == &rx[e]), "search for element %d: %s", e, f ? "found though not queued" : "not found though queued"); }
    }
    uint64_t h = two; for (int j = 0; j < 2; j++) { h = en::mix(h, 77); if (q[j]) { h = en::mix(h, q[j]->avail); for (size_t e = 1; e < q[j]->size; e++) h = en::mix(h, ((reaction_t*)q[j]->d[e])->index); } } en::cut(h, D - i);
  }
  for (int j = 0; j < (two ? 2 : 1); j++) {
    unsigned long long last = 0;
    while (!m[j].empty()) { reaction_t* r = (reaction_t*)pqueue_pop(q[j]); EN_REQ(r && has(j, r), "draining: element lost or invented"); EN_REQ(r->index >= last, "draining: priorities out of order"); last = r->index; del(j, r); }
    EN_REQ(!pqueue_pop(q[j]), "drained queue not empty");
    pqueue_free(q[j]);
  }
}
static const tag_t TG[] = {{5, 0}, {5, 1}, {7, 0}, {9223372036854775807LL, 4294967295u}, {(-9223372036854775807LL - 1), 0}};
struct Pay { pqueue_tag_element_t base; int pay; };
static int pay_eq(void* a, void* b) { return ((Pay*)a)->pay == ((Pay*)b)->pay; }
static void pay_print(void*) {}
static std::string ts(tag_t t) { char b[64]; snprintf(b, sizeof b, "(%lld, %u)", (long long)t.time, t.microstep); return b; }
static bool teq(tag_t a, tag_t b) { return a.time == b.time && a.microstep == b.microstep; }
static bool tlt(tag_t a, tag_t b) { return a.time < b.time || (a.time == b.time && a.microstep < b.microstep); }
static void do_pqtag() {
  en::live_mark();
  size_t init = (size_t)en::ch(2, "initial size"); bool custom = en::ch(2, "customized equality");
  pqueue_tag_t* q = custom ? pqueue_tag_init_customize(init, pqueue_tag_compare, pay_eq, pay_print) : pqueue_tag_init(init);
  struct E { tag_t t; Pay* p; int pay; }; // p: own element, otherwise created by the queue
  vector<E> m; int D = depth(6, 7); int NT = en::thorough() ? 5 : 4; vector<Pay*> own;
  auto least = [&]() { tag_t b = {9223372036854775807LL, 4294967295u}; for (auto& e : m) if (tlt(e.t, b)) b = e.t; return b; };
  auto cnt = [&](tag_t t) { int c = 0; for (auto& e : m) c += teq(e.t, t); return c; };
  for (int i = 0; i < D; i++) {
    int op = en::ch(custom ? 5 : 8, "op"); en::step();
    if (op == 0) { Pay* p = (Pay*)calloc(1, sizeof(Pay)); p->base.tag = TG[en::ch(NT, "tag")]; p->pay = custom ? en::ch(2, "payload") : 0; p->base.is_dynamic = 0; own.push_back(p); EN_REQ(pqueue_tag_insert(q, &p->base) == 0, "insertion failed"); m.push_back({p->base.tag, p, p->pay}); }
    else if (op == 1) { // pop
      Pay* p = (Pay*)pqueue_tag_pop(q);
      if (m.empty()) EN_REQ(!p, "pop of an empty queue returned an element");
      else {
        EN_REQ(p, "pop of a non-empty queue returned NULL"); EN_REQ(teq(p->base.tag, least()), "pop returned tag %s while %s is queued", ts(p->base.tag).c_str(), ts(least()).c_str());
        size_t k = 0; for (; k < m.size(); k++) if (m[k].p ? m[k].p == p : (p->base.is_dynamic && teq(m[k].t, p->base.tag) && std::find(own.begin(), own.end(), p) == own.end())) break;
        EN_REQ(k < m.size(), "pop returned an element that is not queued"); bool dyn = !m[k].p; m.erase(m.begin() + k); if (dyn) free(p);
      }
    } else if (op == 2) { // remove own
      vector<size_t> c; for (size_t k = 0; k < m.size(); k++) if (m[k].p) c.push_back(k);
      if (c.empty()) en::skip();
      size_t k = c[en::ch((int)c.size(), "element")]; pqueue_tag_remove(q, &m[k].p->base); m.erase(m.begin() + k);
    } else if (op == 3) { // remove up to
      if (custom) { // elements here are never dynamic, so removal frees nothing
      }
      tag_t t = TG[en::ch(NT, "up to")]; pqueue_tag_remove_up_to(q, t); vector<E> r;
      // A queued FOREVER_TAG counts as the end: the documentation says all items go if the argument is FOREVER_TAG; entries that themselves
      // are FOREVER are outside the comparison.
      bool f = false; for (auto& e : m) f |= e.t.time == 9223372036854775807LL; if (f && t.time == 9223372036854775807LL) en::skip();
      for (auto& e : m) if (tlt(t, e.t)) r.push_back(e);
      m = r;
    } else if (op == 4) { // search
      tag_t t = TG[en::ch(NT, "search tag")]; pqueue_tag_element_t* e = pqueue_tag_find_with_tag(q, t);
      EN_REQ((e != nullptr) == (cnt(t) > 0), "search for tag %s %s", ts(t).c_str(), e ? "finds an element though none is queued" : "misses a queued element"); if (e) EN_REQ(teq(e->tag, t), "search returned another tag");
      for (int py = 0; py < 2; py++) { Pay pr; memset(&pr, 0, sizeof pr); pr.base.tag = t; pr.pay = py; bool w = false; for (auto& x : m) w |= teq(x.t, t) && (!custom || x.pay == py);
        Pay* f = (Pay*)pqueue_tag_find_equal_same_tag(q, &pr.base); EN_REQ((f != nullptr) == w, "search for an equal element %s", f ? "finds one though none is queued" : "misses a queued one"); if (f) EN_REQ(teq(f->base.tag, t) && (!custom || f->pay == py), "search returned an unequal element"); }
    } else if (op == 5) { tag_t t = TG[en::ch(NT, "tag")]; EN_REQ(pqueue_tag_insert_tag(q, t) == 0, "insertion failed"); m.push_back({t, nullptr, 0}); }
    else if (op == 6) { tag_t t = TG[en::ch(NT, "tag")]; int r = pqueue_tag_insert_if_no_match(q, t); int c = cnt(t); EN_REQ(c ? r != 0 : r == 0, "insert_if_no_match returned %d with %d matches", r, c); if (!c) m.push_back({t, nullptr, 0}); }
    else { // pop tag
      bool e0 = m.empty(); tag_t b = least(); tag_t t = pqueue_tag_pop_tag(q); EN_REQ(teq(t, b), "pop_tag returned %s instead of %s", ts(t).c_str(), ts(b).c_str());
      if (!e0) { // which of several equal elements went is found from the queue
        size_t k = 0; for (; k < m.size(); k++) if (teq(m[k].t, t)) { bool in = false; for (size_t j = 1; j < q->size; j++) if (m[k].p && q->d[j] == (void*)m[k].p) in = true; if (!m[k].p) { int nd = 0, dm = 0; for (size_t j = 1; j < q->size; j++) { auto* x = (pqueue_tag_element_t*)q->d[j]; nd += x->is_dynamic && teq(x->tag, t); } for (auto& x : m) dm += !x.p && teq(x.t, t); in = nd == dm; } if (!in) break; }
        EN_REQ(k < m.size(), "pop_tag removed nothing"); m.erase(m.begin() + k);
      }
    }
    EN_REQ(pqueue_tag_size(q) == m.size(), "size is %zu instead of %zu", pqueue_tag_size(q), m.size());
    EN_REQ(teq(pqueue_tag_peek_tag(q), least()), "peek shows %s instead of %s", ts(pqueue_tag_peek_tag(q)).c_str(), ts(least()).c_str());
    uint64_t h = custom; for (size_t e = 1; e < q->size; e++) { auto* x = (pqueue_tag_element_t*)q->d[e]; h = en::mix(en::mix(en::mix(h, (uint64_t)x->tag.time), x->tag.microstep), (uint64_t)x->is_dynamic * 2 + (x->is_dynamic ? 0 : (uint64_t)((Pay*)x)->pay)); } h = en::mix(h, q->avail); en::cut(h, D - i);
  }
  if (en::ch(2, "drain before freeing")) { tag_t last = {(-9223372036854775807LL - 1), 0}; size_t n = m.size(); for (size_t k = 0; k < n; k++) { tag_t t = pqueue_tag_pop_tag(q); EN_REQ(!tlt(t, last), "draining: tags out of order"); size_t j = 0; while (j < m.size() && !teq(m[j].t, t)) j++; EN_REQ(j < m.size(), "draining: tag %s lost or invented", ts(t).c_str()); m.erase(m.begin() + j); last = t; } EN_REQ(pqueue_tag_size(q) == 0, "drained queue is not empty"); }
  pqueue_tag_free(q);
  for (auto p : own) free(p);
  { vector<E>().swap(m); vector<Pay*>().swap(own); }
  EN_REQ(en::live_since_mark() == 0, "%ld blocks of the queue are never freed", en::live_since_mark());
}
int main(int argc, char** argv) {
  const char* c = getenv("CASE"); if (!c) c = "vector";
  struct { const char* n; void (*f)(); } t[] = {{"vector", do_vector}, {"hashset", do_hashset}, {"hashmap", do_hashmap}, {"deque", do_deque}, {"radix", do_radix}, {"pqueue", do_pqueue}, {"pqtag", do_pqtag}};
  for (auto& e : t) if (!strcmp(e.n, c)) return en::run(argc, argv, e.f);
  fprintf(stderr, "unknown case\n"); return 2;
}
