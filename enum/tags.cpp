// Tag and time arithmetic on the lattice of boundary values, text rendering on all combinations of unit quantities.
#include "en.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include <string>
extern "C" {
#include "tag.h"
}
typedef __int128 big;
static const int64_t MINT = INT64_MIN, MAXT = INT64_MAX; static const uint32_t MAXM = 4294967295u;
static std::vector<int64_t> T; static std::vector<uint32_t> M;
static int64_t radd(int64_t a, int64_t b) { if (a == MINT || b == MINT) return MINT; if (a == MAXT || b == MAXT) return MAXT; big r = (big)a + b; return r >= MAXT ? MAXT : r <= MINT ? MINT : (int64_t)r; }
static bool eq(tag_t a, tag_t b) { return a.time == b.time && a.microstep == b.microstep; }
static std::string ts(tag_t t) { char b[64]; snprintf(b, sizeof b, "(%lld, %u)", (long long)t.time, t.microstep); return b; }
static int rcmp(tag_t a, tag_t b) { if (a.time != b.time) return a.time < b.time ? -1 : 1; return a.microstep < b.microstep ? -1 : a.microstep > b.microstep; }
static tag_t mk(int64_t t, uint32_t m) { tag_t r; r.time = t; r.microstep = m; return r; }
static const tag_t NEV = {INT64_MIN, 0}, FOR = {INT64_MAX, 4294967295u};
static void init() {
  int64_t base[] = {MINT, MINT + 1, MINT + 2, MINT + 1000000000, -(1LL << 62), -(1LL << 32), -1000, -2, -1, 0, 1, 2, 1000, (1LL << 31) - 1, 1LL << 31, 1LL << 32, 1700000000000000000LL, 1LL << 62, MAXT - 1700000000000000000LL, MAXT - 1000000000, MAXT - 1000, MAXT - 2, MAXT - 1, MAXT};
  for (auto b : base) T.push_back(b);
  if (en::thorough()) for (int k = 3; k < 63; k += 2) { T.push_back(1LL << k); T.push_back(-(1LL << k)); T.push_back((1LL << k) - 1); T.push_back(MAXT - (1LL << k)); T.push_back(MINT + (1LL << k)); }
  for (uint32_t m : {0u, 1u, 2u, 1u << 31, MAXM - 1, MAXM}) M.push_back(m);
}
static void arith() {
  tag_t a = mk(T[en::ch((int)T.size(), "time")], M[en::ch((int)M.size(), "microstep")]);
  int64_t b = T[en::ch((int)T.size(), "second time")];
  int64_t s = lf_time_add(a.time, b); en::step();
  EN_REQ(s == radd(a.time, b), "lf_time_add(%lld, %lld) = %lld instead of %lld", (long long)a.time, (long long)b, (long long)s, (long long)radd(a.time, b));
  for (auto c : T) { int64_t x = lf_time_add(s, c); EN_REQ(x == radd(s, c), "adding %lld to %lld gives %lld", (long long)c, (long long)s, (long long)x); }
  for (auto m : M) {
    tag_t t = mk(b, m);
    int c = lf_tag_compare(a, t), w = rcmp(a, t); EN_REQ(c == w, "comparing %s with %s gives %d", ts(a).c_str(), ts(t).c_str(), c);
    tag_t r = lf_tag_add(a, t), e; int64_t st = radd(a.time, b);
    if (st == MAXT) e = FOR; else if (st == MINT) e = NEV; else {
      uint32_t m0 = b > 0 ? 0 : a.microstep; uint64_t ms = (uint64_t)m0 + m;
      e = ms > MAXM ? FOR : mk(st, (uint32_t)ms);
    }
    EN_REQ(eq(r, e), "lf_tag_add(%s, %s) = %s instead of %s", ts(a).c_str(), ts(t).c_str(), ts(r).c_str(), ts(e).c_str());
    en::step(); en::state(en::mix(en::mix((uint64_t)a.time, (uint64_t)b), m));
  }
  // delays; a microstep beyond the largest and a negative time delayed forever have no specified result
  if ((b == 0 && a.microstep == MAXM) || (b == MAXT && a.time < 0)) return;
  tag_t d = lf_delay_tag(a, b), st = lf_delay_strict(a, b), e;
  bool none = a.time == MINT || b < 0, sat = false;
  if (none) e = a; else if ((big)a.time + b >= MAXT) { sat = true; e = FOR; } else e = b == 0 ? mk(a.time, a.microstep + 1) : mk(a.time + b, 0);
  if (sat) EN_REQ(eq(d, e) && eq(st, e), "delaying %s by %lld gives %s and, strictly, %s", ts(a).c_str(), (long long)b, ts(d).c_str(), ts(st).c_str());
  else {
    EN_REQ(eq(d, e), "lf_delay_tag(%s, %lld) = %s instead of %s", ts(a).c_str(), (long long)b, ts(d).c_str(), ts(e).c_str());
    if (!none && b > 0) e = mk(e.time - 1, MAXM);
    EN_REQ(eq(st, e), "lf_delay_strict(%s, %lld) = %s instead of %s", ts(a).c_str(), (long long)b, ts(st).c_str(), ts(e).c_str());
  }
  en::step();
}
// the exact decimal form with separators
static std::string commas(int64_t t) {
  bool neg = t < 0; unsigned long long u = neg ? 0ull - (unsigned long long)t : (unsigned long long)t; std::string d = std::to_string(u), r;
  for (size_t i = 0; i < d.size(); i++) { if (i && (d.size() - i) % 3 == 0) r += ','; r += d[i]; }
  return neg ? "-" + r : r;
}
static void check_readable(int64_t t) {
  char* buf = (char*)malloc(LF_TIME_BUFFER_LENGTH); memset(buf, 0x5a, LF_TIME_BUFFER_LENGTH);
  size_t n = lf_readable_time(buf, t); en::step();
  EN_REQ(n < LF_TIME_BUFFER_LENGTH && memchr(buf, 0, LF_TIME_BUFFER_LENGTH), "rendering %lld is not terminated within the buffer", (long long)t);
  EN_REQ(n == strlen(buf), "rendering %lld returned %zu for \"%s\"", (long long)t, n, buf);
  // parse back
  std::string s = buf; big sum = 0; size_t p = 0; int last = -1; bool first = true;
  static const struct { const char* u; int64_t f; } U[] = {{"weeks", 604800000000000LL}, {"d", 86400000000000LL}, {"h", 3600000000000LL}, {"hr", 3600000000000LL}, {"min", 60000000000LL}, {"s", 1000000000LL}, {"ms", 1000000LL}, {"us", 1000LL}, {"ns", 1LL}};
  if (t == 0) { EN_REQ(s.substr(0, 1) == "0", "zero is rendered as \"%s\"", buf); free(buf); return; }
  while (p < s.size()) {
    if (!first) { EN_REQ(s.compare(p, 2, ", ") == 0, "rendering of %lld: \"%s\"", (long long)t, buf); p += 2; }
    first = false;
    size_t e = p; std::string num; while (e < s.size() && (isdigit(s[e]) || (s[e] == ',' && e + 1 < s.size() && isdigit(s[e + 1])))) { if (s[e] != ',') num += s[e]; e++; }
    EN_REQ(!num.empty() && num.size() < 19 && e < s.size() && s[e] == ' ', "rendering of %lld: \"%s\"", (long long)t, buf);
    EN_REQ(s.substr(p, e - p) == commas(atoll(num.c_str())), "separators in the rendering of %lld: \"%s\"", (long long)t, buf);
    size_t u = e + 1; size_t f = u; while (f < s.size() && isalpha(s[f])) f++;
    int k = -1; for (int i = 0; i < 9; i++) if (s.substr(u, f - u) == U[i].u) k = i;
    EN_REQ(k > last, "units in the rendering of %lld: \"%s\"", (long long)t, buf); last = k;
    sum += (big)U[k].f * atoll(num.c_str()); p = f;
  }
  EN_REQ(sum == t, "%lld is rendered as \"%s\", which is another time", (long long)t, buf);
  en::say("%lld -> %s", (long long)t, buf);
  free(buf);
}
static void readable() {
  static const int64_t W[] = {0, 1, 2, 9, 10, 999, 1000, 1001, 15249, 15250}, NS[] = {0, 1, 9, 10, 99, 100, 999, 1000, 1001, 9000, 10000, 99999, 100000, 999000, 999999, 1000000, 1000001, 1001000, 10000000, 100000000, 123456789, 500000000, 999000000, 999999000, 999999999};
  int64_t w = W[en::ch(10, "weeks")], d = en::ch(7, "days"), h = en::pick({0, 1, 2, 9, 10, 23}, "hours"), m = en::pick({0, 1, 2, 9, 10, 59}, "minutes"), s = en::pick({0, 1, 2, 9, 10, 59}, "seconds");
  for (int64_t ns : NS) {
    big t = (big)w * 604800000000000LL + (big)d * 86400000000000LL + (big)h * 3600000000000LL + (big)m * 60000000000LL + (big)s * 1000000000LL + ns;
    if (t > MAXT) continue;
    check_readable((int64_t)t); en::state((uint64_t)t);
  }
  check_readable(MAXT);
}
static void separators() {
  // every value with up to seven groups of three digits from a set of group patterns, both signs
  static const int G[] = {0, 1, 9, 10, 99, 100, 999};
  int n = en::ch(7, "groups") + 1; big v = 0;
  for (int i = 0; i < n; i++) v = v * 1000 + G[en::ch(7, "digits")];
  if (v > MAXT) v = en::ch(2, "largest") ? MAXT : (big)MAXT - 807;
  int sign = en::ch(3, "sign"); int64_t t = sign == 0 ? (int64_t)v : sign == 1 ? (int64_t)-v : (int64_t)(-v - 1);
  size_t len = commas(t).size() + 1; if (len < 26) len = 26;
  char* buf = (char*)malloc(len); size_t r = lf_comma_separated_time(buf, t); en::step();
  EN_REQ(memchr(buf, 0, len) && commas(t) == buf, "%lld is rendered as \"%.30s\"", (long long)t, buf);
  EN_REQ(r == strlen(buf), "rendering %lld returned %zu for \"%s\"", (long long)t, r, buf);
  en::say("%lld -> %s", (long long)t, buf); en::state((uint64_t)t);
  free(buf);
}
int main(int argc, char** argv) {
  const char* c = getenv("CASE"); if (!c) c = "arith";
  return en::run(argc, argv, !strcmp(c, "arith") ? arith : !strcmp(c, "readable") ? readable : separators, init);
}
