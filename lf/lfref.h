// Reference interpreter: what the reactor model says a program does, given the external choices observed.
#pragma once
#include "lfspec.h"
#include <vector>
#include <map>
#include <string>
#include <tuple>
struct Tag { int64_t t; uint32_t m; bool operator<(const Tag& o) const { return t < o.t || (t == o.t && m < o.m); } bool operator==(const Tag& o) const { return t == o.t && m == o.m; } bool operator<=(const Tag& o) const { return *this < o || *this == o; } };
struct ReadRec { int slot; bool present, has; int v; };
struct Rec { int rx, kind; Tag g; uint64_t state; std::vector<ReadRec> reads; int tid = 0, nth = 0; }; // observed: by which thread, in which order
struct SchedRec { int rx, action; int64_t extra; int handle; Tag g; Tag at; bool accepted; };
struct ExtEvent { int action; int seq; Tag g; };
struct RefIn {
  const ls_prog* p; const ls_graph* g;
  std::vector<ExtEvent> ext;               // physical events observed
  bool has_stop = false; Tag stop;         // asynchronous stop observed at this tag
  std::map<std::tuple<int, int64_t, uint32_t>, int> kinds; // which of body / handler was observed, per reaction with a deadline
  int max_tags = 400;
};
struct RefOut { std::vector<Rec> recs[LS_MAXR]; std::vector<SchedRec> sched[LS_MAXR]; std::vector<Tag> tags; Tag stop; bool stopped; bool starved; std::string err; };
void ref_run(const RefIn& in, RefOut& out);
