// Multiports: every sequence of writes on all widths and capacities of the sparse record, over consecutive tags.
#include "en.h"
#include <stdlib.h>
#include <string.h>
#include <set>
extern "C" {
void mp_init(int, int, int, int, int); void mp_set(int, int); void mp_step(); int mp_present(int, int); int mp_iterate(int, int*, int); void mp_free(); void mp_unconnected(int, int); unsigned long mp_hash();
int mp_set_array(int, int, void*, int); int* mp_value(int, int); size_t mp_length(int, int); int* mp_mutate(int, int);
}
static void compare(int i, int w, const std::set<int>& m) {
  int out[24]; int n = mp_iterate(i, out, (int)m.size() + 3), k = 0;
  for (int c : m) { EN_REQ(out[k] == c, "step %d of the iteration over multiport %d yields %d instead of %d", k, i, out[k], c); k++; }
  for (; k < n; k++) EN_REQ(out[k] < 0, "step %d of the iteration over multiport %d yields %d after the last present channel", k, i, out[k]);
  for (int c = 0; c < w; c++) EN_REQ(mp_present(i, c) == (int)m.count(c), "channel %d of multiport %d is %s", c, i, mp_present(i, c) ? "present" : "absent");
}
static void do_multiport() {
  int w = 1 + en::ch(8, "width"); int cap = en::ch(w + 2, "capacity") - 1; int w2 = w <= 4 ? en::ch(3, "second width") : 0; int cap2 = w2 ? en::ch(3, "second capacity") - 1 : -1;
  mp_init(w, cap, w2, cap2, 0);
  int un = w <= 4 && !w2 ? en::ch(w + 1, "unconnected channel") - 1 : -1; if (un >= 0) mp_unconnected(0, un); // generated code shows a default port there
  int tags = 3, L = en::thorough() ? 5 : 4, len[] = {L, L, L, L};
  for (int t = 0; t < tags; t++) {
    std::set<int> m[2];
    mp_step(); en::step();
    compare(0, w, m[0]); compare(1, w2, m[1]);
    if (t) en::cut(en::mix(en::mix(en::mix(mp_hash(), (uint64_t)t), (uint64_t)(w * 16 + cap + 1)), (uint64_t)(w2 * 100 + (cap2 + 1) * 10 + un + 1)), 1);
    for (int k = 0; k < len[t]; k++) {
      int c = en::ch(w + w2 + 1, "channel");
      if (c == w + w2) break;
      if (c == un) en::skip();
      en::step();
      en::say("tag %d: set channel %d of multiport %d", t, c < w ? c : c - w, c >= w);
      if (c < w) { mp_set(0, c); m[0].insert(c); } else { mp_set(1, c - w); m[1].insert(c - w); }
    }
    for (int i = 0; i < 2; i++) { compare(i, i ? w2 : w, m[i]); compare(i, i ? w2 : w, m[i]); }
  }
  mp_free();
}
// payloads on all channels of wide multiports and writable copies of them, around the limit of the list of recycled tokens
static void do_tokens() {
  int n = en::pick({0, 1, 2, 510, 511, 512, 513, 514, 515, 600, 1030}, "copies per tag"), tags = 1 + en::ch(3, "tags"), sets = en::ch(3, "channels set"), copies = en::ch(2, "copy at every tag");
  en::live_mark();
  mp_init(2, -1, 1, 1, 1);
  for (int t = 0; t < tags; t++) {
    mp_step(); en::step();
    for (int c = 0; c <= sets; c++) { int* v = (int*)malloc(3 * sizeof(int)); v[0] = t * 10 + c; v[1] = 7; v[2] = 9; mp_set_array(c / 2, c % 2, v, 3); }
    for (int k = 0; k < n && (t == 0 || copies); k++) {
      int c = k % (sets + 1); int* p = mp_mutate(c / 2, c % 2); en::step();
      EN_REQ(p != mp_value(c / 2, c % 2), "the writable copy is the payload that another reader sees");
      EN_REQ(p[0] == t * 10 + c && p[1] == 7 && p[2] == 9, "the writable copy differs from the payload");
      p[0] = -1; p[2] = k;
    }
    for (int c = 0; c <= sets; c++) { int* p = mp_value(c / 2, c % 2); EN_REQ(p[0] == t * 10 + c && p[1] == 7 && p[2] == 9 && mp_length(c / 2, c % 2) == 3, "the payload changed"); }
  }
  mp_free();
  EN_REQ(en::live_since_mark() == 0, "%ld blocks are never freed", en::live_since_mark());
}
int main(int argc, char** argv) {
  const char* c = getenv("CASE");
  if (c && !strcmp(c, "tokens")) return en::run(argc, argv, do_tokens);
  return en::run(argc, argv, do_multiport);
}
