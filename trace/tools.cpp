// The converter of trace files to comma-separated values: its real main function on every short trace over a set of record patterns.
#include "../enum/en.h"
#include "lftread.h"
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <map>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" int tool_main(int argc, const char* argv[]);
static std::string dir;
static const char* NAMES[] = {
  "Reaction starts", "Reaction ends", "Reaction deadline missed", "Schedule called", "User-defined event", "User-defined valued event", "Worker wait starts", "Worker wait ends",
  "Scheduler advancing time starts", "Scheduler advancing time ends", "Federated marker", "Sending ACK", "Sending FAILED", "Sending TIMESTAMP", "Sending NET", "Sending LTC", "Sending STOP_REQ",
  "Sending STOP_REQ_REP", "Sending STOP_GRN", "Sending FED_ID", "Sending PTAG", "Sending TAG", "Sending REJECT", "Sending RESIGN", "Sending PORT_ABS", "Sending CLOSE_RQ", "Sending TAGGED_MSG",
  "Sending P2P_TAGGED_MSG", "Sending MSG", "Sending P2P_MSG", "Sending ADR_AD", "Sending ADR_QR", "Receiving ACK", "Receiving FAILED", "Receiving TIMESTAMP", "Receiving NET", "Receiving LTC",
  "Receiving STOP_REQ", "Receiving STOP_REQ_REP", "Receiving STOP_GRN", "Receiving FED_ID", "Receiving PTAG", "Receiving TAG", "Receiving REJECT", "Receiving RESIGN", "Receiving PORT_ABS",
  "Receiving CLOSE_RQ", "Receiving TAGGED_MSG", "Receiving P2P_TAGGED_MSG", "Receiving MSG", "Receiving P2P_MSG", "Receiving ADR_AD", "Receiving ADR_QR", "Receiving UNIDENTIFIED"};
enum { NT = sizeof NAMES / sizeof *NAMES };
static const int64_t START = 1000000000000LL;
static const uint64_t R0 = 0x1000, R1 = 0x2000, A0 = 0x1010, A1 = 0x2010, U0 = 0x3000, U1 = 0x3001, XX = 0x9999;
struct Writer {
  std::string b; template <class T> void put(T v) { b.append((const char*)&v, sizeof v); }
  void obj(uint64_t p, uint64_t t, int ty, const char* d) { put(p); put(t); put(ty); b.append(d, strlen(d) + 1); }
  void rec(const LftRec& r) { put(r.type); put(0); put(r.ptr); put(r.src); put(r.dst); put(r.lt); put(r.m); put(0); put(r.pt); put(r.trig); put(r.extra); }
};
static std::string slurp(const std::string& f) { std::string s; FILE* x = fopen(f.c_str(), "rb"); if (!x) return "(no file)"; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, x)) > 0) s.append(b, k); fclose(x); return s; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static std::string sp(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
struct Stat { int n = 0; int64_t total = 0, mx = 0, mn = 0, from = 0; void add(int64_t v) { if (!n || v > mx) mx = v; if (!n || v < mn) mn = v; n++; total += v; } };

static void convert(const std::vector<std::vector<LftRec>>& blocks, const char* from, int64_t fromv, const char* to, int64_t tov) {
  Writer w; w.put(START); w.put(7);
  w.obj(R0, 0, 0, "r0"); w.obj(R0, A0, 1, "r0.a"); w.obj(U0, 0, 2, "first"); w.obj(R1, 0, 0, "main.r1"); w.obj(R1, A1, 1, "r1.b"); w.obj(U1, 0, 2, "second"); w.obj(0x4000, 0x4010, 0, "r4");
  for (auto& b : blocks) { w.put((int)b.size()); for (auto& r : b) w.rec(r); }
  FILE* x = fopen((dir + "/t.lft").c_str(), "wb"); if (!x) { perror("t.lft"); _exit(2); }
  fwrite(w.b.data(), 1, w.b.size(), x); fclose(x);
  unlink((dir + "/t.csv").c_str()); unlink((dir + "/t_summary.csv").c_str());
  en::step();
  fflush(NULL);
  pid_t p = fork();
  if (!p) {
    if (chdir(dir.c_str())) _exit(2);
    int o = open("out", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); dup2(o, 2);
    std::vector<const char*> a{"trace_to_csv"};
    static char args[512]; char* e = args + 16; // one block of memory, as the system passes arguments
    auto opt = [&](const char* o, const char* v) { for (std::string s : {std::string(o), std::string(v, strchr(v, ' ')), std::string(strchr(v, ' ') + 1)}) { a.push_back(strcpy(e, s.c_str())); e += s.size() + 1; } };
    if (from) opt("-s", from);
    if (to) opt("-e", to);
    a.push_back(strcpy(e, "t.lft")); a.push_back(nullptr);
    tool_main((int)a.size() - 1, a.data()); exit(0); // renamed, it need not return a value
  }
  int st; waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { std::string o = slurp(dir + "/out"); size_t e = o.find("ERROR: "); en::fail("the conversion of a valid trace ends with %s %d: %.300s", WIFEXITED(st) ? "status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), e == std::string::npos ? "" : o.c_str() + e); }
  // what the files must contain
  std::map<uint64_t, std::string> desc{{R0, "r0"}, {R1, "main.r1"}, {U0, "first"}, {U1, "second"}}, trig{{A0, "r0.a"}, {A1, "r1.b"}};
  std::vector<std::string> want{"Event, Reactor, Source, Destination, Elapsed Logical Time, Microstep, Elapsed Physical Time, Trigger, Extra Delay"};
  std::map<int, int> types; std::map<std::pair<std::string, int>, Stat> react; std::map<std::string, int> sched; std::map<std::string, std::pair<int, Stat>> user; std::map<std::pair<int, int>, Stat> wait;
  int64_t latest = 0;
  for (auto& b : blocks) for (auto& r : b) {
    if ((from && r.lt - START < fromv) || (to && r.lt - START >= tov)) continue;
    std::string d = desc.count(r.ptr) ? desc[r.ptr] : "NO REACTOR", t = trig.count(r.trig) ? trig[r.trig] : "NO TRIGGER";
    want.push_back(sp("%s, %s, %d, %d, %lld, %u, %lld, %s, %lld", NAMES[r.type], d.c_str(), r.src, r.dst, (long long)(r.lt == INT64_MIN ? (int64_t)((uint64_t)r.lt - (uint64_t)START) : r.lt - START), r.m, (long long)(r.pt - START), t.c_str(), (long long)r.extra));
    if (r.pt > latest) latest = r.pt;
    types[r.type]++;
    if (desc.count(r.ptr)) {
      if (r.type == 0) react[{d, r.dst}].from = r.pt;
      if (r.type == 1) { auto& s = react[{d, r.dst}]; s.add(r.pt - s.from); }
      if (r.type == 4) user[d].first++;
      if (r.type == 5) { user[d].first++; user[d].second.add(r.extra); }
    }
    if (r.type == 3 && trig.count(r.trig)) sched[t]++;
    if (r.type == 6 || r.type == 8) wait[{r.src, r.type == 8}].from = r.pt;
    if (r.type == 7 || r.type == 9) { auto& s = wait[{r.src, r.type == 9}]; s.add(r.pt - s.from); }
  }
  std::string got = slurp(dir + "/t.csv");
  if (en::verbose()) en::say("%s\n", got.c_str());
  auto g = lines(got);
  for (size_t i = 0; i < g.size() || i < want.size(); i++) {
    if (i >= g.size()) en::fail("the converted trace lacks the line '%s'", want[i].c_str());
    if (i >= want.size()) en::fail("the converted trace has the additional line '%s'", g[i].c_str());
    if (g[i] != want[i]) en::fail("the converted trace has the line '%s' instead of '%s'", g[i].c_str(), want[i].c_str());
  }
  // the summary, section by section, in any order within a section, percentages left out
  std::map<std::string, std::map<std::string, int>> sec, ws; std::string cur = "head";
  std::string sum = slurp(dir + "/t_summary.csv"); if (en::verbose()) en::say("%s\n", sum.c_str());
  for (auto& l : lines(sum)) {
    if (l.empty()) continue;
    static const char* heads[] = {"Total Event Occurrences", "Reaction Executions", "Schedule calls", "User events", "Workers Waiting"};
    bool h = false; for (auto k : heads) if (l == k) cur = k, h = true;
    if (h || l.rfind("Reactor, Reaction,", 0) == 0 || l.rfind("Trigger, Occ", 0) == 0 || l.rfind("Description, Occ", 0) == 0 || l.rfind("Worker, Waiting", 0) == 0) continue;
    if (cur == "Reaction Executions" || cur == "Workers Waiting") { // drop the fifth column
      size_t a = 0; for (int c = 0; c < 4 && a != std::string::npos; c++) a = l.find(", ", a + (c ? 2 : 0));
      size_t b = a == std::string::npos ? a : l.find(", ", a + 2); if (b != std::string::npos) l = l.substr(0, a) + l.substr(b);
    }
    sec[cur][l]++;
  }
  auto put = [&](const char* s, const std::string& l) { ws[s][l]++; };
  put("head", sp("Start time:, %lld", (long long)START)); put("head", sp("End time:, %lld", (long long)latest)); put("head", sp("Total time:, %lld", (long long)(latest - START)));
  for (auto& t : types) put("Total Event Occurrences", sp("%s, %d", NAMES[t.first], t.second));
  auto four = [](const Stat& s) { return sp("%d, %lld, %lld, %lld, %lld", s.n, (long long)s.total, (long long)(s.total / s.n), (long long)s.mx, (long long)s.mn); };
  for (auto& r : react) if (r.second.n) put("Reaction Executions", sp("%s, %d, ", r.first.first.c_str(), r.first.second) + four(r.second));
  for (auto& s : sched) put("Schedule calls", sp("%s, %d", s.first.c_str(), s.second));
  for (auto& u : user) put("User events", u.second.second.n ? sp("%s, %d, ", u.first.c_str(), u.second.first) + four(u.second.second).substr(four(u.second.second).find(", ") + 2) : sp("%s, %d", u.first.c_str(), u.second.first));
  for (auto& x : wait) if (x.second.n) put("Workers Waiting", sp("%d, %s, ", x.first.first, x.first.second ? "advancing time" : "reaction queue") + four(x.second));
  for (auto& s : ws) for (auto& l : s.second) if (sec[s.first][l.first] != l.second) en::fail("the summary's section %s lacks the line '%s'", s.first.c_str(), l.first.c_str());
  for (auto& s : sec) for (auto& l : s.second) if (ws[s.first][l.first] != l.second) en::fail("the summary's section %s has the line '%s'", s.first.c_str(), l.first.c_str());
}

static int64_t now;
static LftRec mk(int type, uint64_t ptr, int src, int dst, int64_t lt, uint32_t m, uint64_t trig, int64_t extra, int64_t dt = 7) { now += dt; LftRec r{}; r.type = type; r.ptr = ptr; r.src = src; r.dst = dst; r.lt = lt; r.m = m; r.pt = now; r.trig = trig; r.extra = extra; return r; }
enum { KINDS = 18 };
// appends the records of one pattern
static void add(std::vector<LftRec>& v, int k, int64_t lt) {
  lt += START;
  switch (k) {
  case 0: v.push_back(mk(0, R0, 0, 0, lt, 0, 0, 0)); v.push_back(mk(1, R0, 0, 0, lt, 0, 0, 0, 5)); break;
  case 1: v.push_back(mk(0, R1, 1, 2, lt, 3, 0, 0)); v.push_back(mk(1, R1, 1, 2, lt, 3, 0, 0, 11)); break;
  case 2: v.push_back(mk(0, R0, 0, 1, lt, 0, 0, 0)); v.push_back(mk(0, R1, 1, 0, lt, 0, 0, 0, 0)); v.push_back(mk(1, R0, 0, 1, lt, 0, 0, 0, 0)); v.push_back(mk(1, R1, 1, 0, lt, 0, 0, 0, 3)); break;
  case 3: v.push_back(mk(2, R1, 0, 0, lt, 0, 0, 0)); v.push_back(mk(0, R1, 0, 0, lt, 0, 0, 0)); v.push_back(mk(1, R1, 0, 0, lt, 0, 0, 0, 0)); break;
  case 4: v.push_back(mk(3, 0, 0, 0, lt, 0, A0, 10)); break;
  case 5: v.push_back(mk(3, R1, -1, 0, lt, 1, A1, 0)); break;
  case 6: v.push_back(mk(3, 0, 0, 0, lt, 0, XX, 4)); break;
  case 7: v.push_back(mk(4, U0, -1, -1, lt, 0, 0, 0)); break;
  case 8: v.push_back(mk(5, U1, -1, -1, lt, 0, 0, en::pick<int64_t>({0, 5, -3}))); break;
  case 9: v.push_back(mk(6, 0, 0, 0, lt, 0, 0, 0)); v.push_back(mk(7, 0, 0, 0, lt, 0, 0, 0, 9)); break;
  case 10: { int w = en::pick({1, 31, 32, 40}); v.push_back(mk(6, 0, w, w, lt, 0, 0, 0)); v.push_back(mk(7, 0, w, w, lt, 0, 0, 0, 0)); } break;
  case 11: v.push_back(mk(8, 0, -1, 0, lt, 0, 0, 0)); v.push_back(mk(9, 0, -1, 0, lt, 0, 0, 0, 20)); break;
  case 12: v.push_back(mk(8, 0, 1, 1, lt, 2, 0, 0)); v.push_back(mk(9, 0, 1, 1, lt, 2, 0, 0, 2)); break;
  case 13: v.push_back(mk(14, 0, 0, -1, lt, 0, 0, 0)); v.push_back(mk(35, 0, -1, 0, lt, 0, 0, 0)); break;
  case 14: v.push_back(mk(26, 0, 0, 1, INT64_MIN, 0, 0, 0)); break;
  case 15: v.push_back(mk(0, XX, 0, 0, lt, 0, 0, 0)); v.push_back(mk(1, XX, 0, 0, lt, 0, 0, 0)); break;
  case 16: v.push_back(mk(4, XX, -1, -1, lt, 0, 0, 0)); break;
  case 17: v.push_back(mk(6, 0, 2, 2, lt, 0, 0, 0)); break; // a worker is still waiting when the trace ends
  }
}
static void seqs() {
  now = START; std::vector<std::vector<LftRec>> bl(1); int cuts = en::ch(3), n = en::thorough() || !cuts ? 3 : 2;
  for (int i = 0; i < n; i++) { int k = en::ch(KINDS + 1); if (k == KINDS) break; add(bl.back(), k, i / 2 * 1000); if (cuts == 1 || (cuts == 2 && i == 0)) bl.push_back({}); }
  if (bl.back().empty()) bl.pop_back();
  uint64_t h = cuts; for (auto& b : bl) for (auto& r : b) h = en::mix(h, en::mix(en::mix(r.type, r.ptr + r.trig), en::mix(r.pt, r.extra)));
  en::state(h); convert(bl, nullptr, 0, nullptr, 0);
}
static void types() { now = START; std::vector<std::vector<LftRec>> bl(1); int t = en::ch(NT); bl[0].push_back(mk(t, R0, 1, 2, START + 12, 5, A0, 9)); if (en::ch(2)) bl[0].push_back(mk(en::ch(NT), 0, -1, 65535, START - 5, 0x7fffffffu, 0, INT64_MAX)); convert(bl, nullptr, 0, nullptr, 0); }
static void window() {
  now = START; std::vector<std::vector<LftRec>> bl(1); for (int i = 0; i < 5; i++) { add(bl[0], i % 3, 1000 * i); add(bl[0], 4 + i % 2, 1000 * i); add(bl[0], 7, 1000 * i); }
  struct O { const char* s; int64_t v; }; static const O o[] = {{0, 0}, {"0 nsec", 0}, {"1 usec", 1000}, {"2 usec", 2000}, {"2001 nsec", 2001}, {"3 usec", 3000}, {"4 usec", 4000}, {"1 msec", 1000000}, {"1 sec", 1000000000}, {"1 day", 86400000000000}};
  auto &f = o[en::ch(10)], &t = o[en::ch(10)]; if (f.s && t.s && f.v >= t.v) en::skip();
  convert(bl, f.s, f.v, t.s, t.v);
}
static void blocks() { // sizes around the buffer's capacity
  now = START; std::vector<std::vector<LftRec>> bl; int n = 1 + en::ch(3);
  for (int b = 0; b < n; b++) { bl.push_back({}); int m = en::pick({1, 2, 2047, 2048}); for (int i = 0; i < m; i++) bl.back().push_back(mk(3, 0, b, i, START + i, 0, i % 2 ? A0 : A1, i)); }
  convert(bl, nullptr, 0, nullptr, 0);
}
int main(int argc, char** argv) {
  std::string c = getenv("CASE") ? getenv("CASE") : "seqs"; const char* out = getenv("OUT_DIR"); std::string base = std::string(out ? out : "/tmp") + "/lft-XXXXXX";
  static std::string root; std::vector<char> b(base.begin(), base.end()); b.push_back(0); if (!mkdtemp(b.data())) { perror("mkdtemp"); return 2; } root = b.data();
  pid_t p = fork();
  if (p) { int st; waitpid(p, &st, 0); if (root.find("/lft-") != std::string::npos) { std::string cmd = "rm -rf '" + root + "'"; if (system(cmd.c_str())) {} } return WIFEXITED(st) ? WEXITSTATUS(st) : 2; }
  static void (*one)(); one = c == "types" ? types : c == "window" ? window : c == "blocks" ? blocks : seqs;
  return en::run(argc, argv, [] { if (dir.empty() || dir != root + "/" + std::to_string(getpid())) { dir = root + "/" + std::to_string(getpid()); (void)!system(("mkdir -p '" + dir + "'").c_str()); } one(); });
}
