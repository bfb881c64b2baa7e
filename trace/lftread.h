// Independent reader of trace files, after the format described in include/core/tracepoint.h.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
struct LftRec { int type; uint64_t ptr; int src, dst; int64_t lt; uint32_t m; int64_t pt; uint64_t trig; int64_t extra; };
struct LftObj { uint64_t ptr, trig; int type; std::string d; };
struct Lft { int64_t start; std::vector<LftObj> obj; std::vector<LftRec> rec; std::vector<size_t> blocks; std::string err; };
static inline void lft_read(const unsigned char* p, size_t n, Lft& f) {
  size_t i = 0; auto need = [&](size_t k) { return i + k <= n; };
  auto get = [&](void* d, size_t k) { memcpy(d, p + i, k); i += k; };
  if (!need(12)) { f.err = "the header is incomplete"; return; }
  int cnt; get(&f.start, 8); get(&cnt, 4);
  for (int k = 0; k < cnt; k++) {
    LftObj o; if (!need(20)) { f.err = "the object table is incomplete"; return; }
    get(&o.ptr, 8); get(&o.trig, 8); get(&o.type, 4);
    while (i < n && p[i]) o.d += (char)p[i++];
    if (i++ >= n) { f.err = "an object description is incomplete"; return; }
    f.obj.push_back(o);
  }
  while (i < n) {
    int len; if (!need(4)) { f.err = "a block length is incomplete"; return; }
    get(&len, 4); if (len <= 0 || !need((size_t)len * 64)) { char b[80]; snprintf(b, sizeof b, "a block of %d records exceeds the file", len); f.err = b; return; }
    f.blocks.push_back((size_t)len);
    for (int k = 0; k < len; k++) {
      const unsigned char* q = p + i; LftRec r; i += 64;
      memcpy(&r.type, q, 4); memcpy(&r.ptr, q + 8, 8); memcpy(&r.src, q + 16, 4); memcpy(&r.dst, q + 20, 4); memcpy(&r.lt, q + 24, 8); memcpy(&r.m, q + 32, 4); memcpy(&r.pt, q + 40, 8); memcpy(&r.trig, q + 48, 8); memcpy(&r.extra, q + 56, 8);
      f.rec.push_back(r);
    }
  }
}
