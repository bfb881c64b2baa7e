// Command lines: every vector of arguments within the bounds on the real parser, compared with a reference parser.
#include "en.h"
#include "cli.h"
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <memory>
using std::string; using std::vector;
static int errors;
static void on_msg(int level) { errors += level; }
#ifdef CLI_RTI
static const int RTI = 1;
#else
static const int RTI = 0;
#endif
#ifdef CLI_FED
static const int FED = 1;
#else
static const int FED = 0;
#endif
#ifdef CLI_AUTH
static const int AUTH = 1;
#else
static const int AUTH = 0;
#endif
enum { OK, SOFT, FATAL };
struct Exp { int kind = OK; cli_t s; bool any_neg = false, workers_one = false, any_clock = false; };

// nonnegative decimal number, or -1 not a number, -2 too large, -3 negative
static long long num(const string& v, bool& bad, bool& neg) {
  bad = neg = false;
  size_t i = 0; bool minus = false;
  if (!v.empty() && v[0] == '-') { minus = true; i = 1; }
  if (i == v.size()) { bad = true; return 0; }
  __int128 x = 0;
  for (; i < v.size(); i++) { if (v[i] < '0' || v[i] > '9') { bad = true; return 0; } x = x * 10 + (v[i] - '0'); if (x > (__int128)LLONG_MAX) { bad = true; return 0; } }
  neg = minus && x > 0;
  return minus ? -(long long)x : (long long)x;
}
static long long unit(const string& u) {
  static const struct { const char* n; long long f; } U[] = {{"nsec", 1}, {"usec", 1000}, {"msec", 1000000}, {"sec", 1000000000}, {"min", 60000000000}, {"minute", 60000000000},
    {"hour", 3600000000000}, {"day", 86400000000000}, {"week", 604800000000000}};
  for (auto& x : U) if (u == x.n || u == string(x.n) + "s") return x.f;
  return 0;
}
struct Addr { const char* text; int valid; const char *user, *host; int port; };
static const Addr addrs[] = {
  {"localhost", 1, "", "localhost", -2}, {"host:1234", 1, "", "host", 1234}, {"user@host", 1, "user", "host", -2}, {"user@rti.example.com:65535", 1, "user", "rti.example.com", 65535},
  {"127.0.0.1", 1, "", "127.0.0.1", -2}, {"127.0.0.1:15045", 1, "", "127.0.0.1", 15045}, {"u_1-x@10.0.0.255:1", 1, "u_1-x", "10.0.0.255", 1},
  {"", 0, 0, 0, 0}, {"host:65536", 0, 0, 0, 0}, {"host:123456", 0, 0, 0, 0}, {"host:", 0, 0, 0, 0}, {":1234", 0, 0, 0, 0}, {"@host", 0, 0, 0, 0}, {"user@", 0, 0, 0, 0}, {"a b", 0, 0, 0, 0},
  {"user@host@x", 0, 0, 0, 0}, {"host:12:13", 0, 0, 0, 0}, {"host:12a", 0, 0, 0, 0}, {"1user@host", 0, 0, 0, 0}, {"host!", 0, 0, 0, 0}, {"user@host:99999", 0, 0, 0, 0}, {"ho$t:80", 0, 0, 0, 0}};
static const Addr* addr(const string& t) { for (auto& a : addrs) if (t == a.text) return &a; return nullptr; }
static bool known_addr(const string& t) { return addr(t) != nullptr; }

static Exp ref_prog(const vector<string>& a, cli_t s) {
  Exp e; e.s = s; size_t i = 1;
  auto soft = [&] { if (e.kind == OK) e.kind = SOFT; };
  while (i < a.size()) {
    const string& o = a[i++]; size_t left = a.size() - i;
    auto boolean = [&](int& f) { if (!left) { e.kind = FATAL; return false; } const string& v = a[i++]; if (v == "true") f = 1; else if (v == "false") f = 0; else soft(); return true; };
    if (o == "-f" || o == "--fast") { if (!boolean(e.s.fast)) return e; }
    else if (o == "-k" || o == "--keepalive") { if (!boolean(e.s.keepalive)) return e; }
    else if (o == "-o" || o == "--timeout" || o == "-timeout") {
      if (left < 2) { e.kind = FATAL; return e; }
      bool bad, neg; long long v = num(a[i], bad, neg), f = unit(a[i + 1]); i += 2;
      if (bad || !f || v > LLONG_MAX / f) { e.kind = FATAL; return e; }
      if (neg) { e.any_neg = true; e.s.duration = -1; } else { e.any_neg = false; e.s.duration = v * f; }
    } else if (o == "-w" || o == "--workers") {
      if (!left) { e.kind = FATAL; return e; }
      bool bad, neg; long long v = num(a[i++], bad, neg);
      if (bad || v <= 0 || v > INT_MAX) { soft(); e.workers_one = true; } else { e.s.workers = (unsigned)v; e.workers_one = false; }
    } else if (FED && (o == "-i" || o == "--id")) {
      if (!left) { e.kind = FATAL; return e; }
      memset(e.s.id, 0, sizeof e.s.id); strncpy(e.s.id, a[i++].c_str(), 299);
    } else if (FED && (o == "-r" || o == "--rti")) {
      if (!left) { e.kind = FATAL; return e; }
      const string& t = a[i++];
      if (!known_addr(t)) en::skip();
      const Addr* d = addr(t);
      if (!d->valid) { e.kind = FATAL; return e; }
      memset(e.s.host, 0, sizeof e.s.host); strcpy(e.s.host, d->host); if (d->user[0]) { memset(e.s.user, 0, sizeof e.s.user); strcpy(e.s.user, d->user); } if (d->port != -2) e.s.port = d->port;
    } else if (o == "--ros-args") {
    } else { e.kind = FATAL; return e; }
  }
  return e;
}
static Exp ref_rti(const vector<string>& a, cli_t s) {
  Exp e; e.s = s;
  auto soft = [&] { if (e.kind == OK) e.kind = SOFT; };
  auto fatal = [&] { e.kind = FATAL; };
  for (size_t i = 1; i < a.size() && e.kind != FATAL;) {
    const string& o = a[i++]; size_t left = a.size() - i; bool bad, neg;
    if (o == "-i" || o == "--id") { if (!left) fatal(); else { memset(e.s.id, 0, sizeof e.s.id); strncpy(e.s.id, a[i++].c_str(), 299); } }
    else if (o == "-n" || o == "--number_of_federates") { if (!left) { fatal(); break; } long long v = num(a[i++], bad, neg); if (bad || v <= 0 || v >= 65535) fatal(); else e.s.nodes = (int)v; }
    else if (o == "-p" || o == "--port") { if (!left) { fatal(); break; } long long v = num(a[i++], bad, neg); if (bad || v <= 0 || v >= 65535) fatal(); else e.s.port = (int)v; }
    else if (o == "-a" || o == "--auth") { if (AUTH) e.s.auth = 1; else fatal(); }
    else if (o == "-t" || o == "--tracing") e.s.tracing = 1;
    else if (o == " ") {}
    else if (o == "-c" || o == "--clock_sync") {
      size_t from = i;
      while (i < a.size()) {
        const string& w = a[i];
        if (w == "off") e.s.clock = 0, i++; else if (w == "init" || w == "initial") e.s.clock = 1, i++; else if (w == "on") e.s.clock = 2, i++; else if (w == " ") i++;
        else if (w == "period" || w == "exchanges-per-interval") {
          bool per = w == "period"; i++;
          if (i >= a.size()) { soft(); break; }
          long long v = num(a[i++], bad, neg);
          if (bad || v <= 0 || v == LLONG_MAX || (!per && v > INT_MAX) || (per ? e.s.clock != 2 : e.s.clock == 0)) { soft(); e.any_clock = true; }
          else if (per) e.s.period = v; else e.s.exchanges = (int)v;
        } else break;
      }
      if (i == from) fatal();
    } else fatal();
  }
  return e;
}
static string show(const cli_t& c) {
  char b[1500];
  if (RTI) snprintf(b, sizeof b, "nodes %d, port %d, clock %d, period %lld, exchanges %d, auth %d, tracing %d, id %s", c.nodes, c.port, c.clock, c.period, c.exchanges, c.auth, c.tracing, c.id);
  else snprintf(b, sizeof b, "fast %d, keepalive %d, workers %u, duration %lld, id %s, host %s, user %s, port %d", c.fast, c.keepalive, c.workers, c.duration, c.id, c.host, c.user, c.port);
  return b;
}
static string line(const vector<string>& a) { string r; for (size_t i = 1; i < a.size(); i++) { if (i > 1) r += " "; r += a[i].empty() || a[i] == " " ? "'" + a[i] + "'" : a[i]; } return r; }
static bool same(const cli_t& x, const cli_t& y) {
  return x.fast == y.fast && x.keepalive == y.keepalive && x.workers == y.workers && x.duration == y.duration && x.nodes == y.nodes && x.port == y.port && x.clock == y.clock && x.auth == y.auth && x.tracing == y.tracing &&
         x.exchanges == y.exchanges && x.period == y.period && !strcmp(x.id, y.id) && !strcmp(x.host, y.host) && !strcmp(x.user, y.user);
}
static void check(const vector<string>& items, size_t split) {
  static const char* P = RTI ? "RTI" : "prog";
  cli_t init; memset(&init, 0, sizeof init);
  bool other = en::ch(2, "initial settings");
  if (RTI) { init.nodes = other ? 9 : 0; init.port = other ? 777 : 0; init.clock = other ? 2 : 1; init.period = other ? 99 : 10000000; init.exchanges = other ? 4 : 10; init.auth = 0; init.tracing = other; strcpy(init.id, other ? "fedx" : "Unidentified Federation"); }
  else { init.fast = other; init.keepalive = other; init.workers = other ? 7 : 0; init.duration = other ? 12345 : -1; if (FED) { init.port = other ? 4242 : -1; strcpy(init.id, other ? "fedx" : "Unidentified Federation"); if (other) { strcpy(init.host, "old.host"); strcpy(init.user, "olduser"); } } }
  cli_set(&init);
  static cli_t keep, want; want = init; bool rejected = false;
  for (int part = 0; part < 2 && !rejected; part++) {
    if (part == 0 && split == 0) continue; // the default options come from another vector
    vector<string> a{P}; size_t b = part ? split : 0, e = part ? items.size() : split; a.insert(a.end(), items.begin() + (long)b, items.begin() + (long)e);
    Exp x = RTI ? ref_rti(a, want) : ref_prog(a, want);
    const char** argv = (const char**)malloc(sizeof(char*) * a.size()); vector<char*> copy; // exact sizes, so that the address sanitizer sees every access beyond
    for (size_t i = 0; i < a.size(); i++) { char* c = (char*)malloc(a[i].size() + 1); memcpy(c, a[i].c_str(), a[i].size() + 1); argv[i] = c; copy.push_back(c); }
    errors = 0; en::step();
    int r = cli_parse((int)a.size(), argv);
    cli_t got; cli_get(&got); // before the arguments go away: identifiers refer to them
    en::say("%s -> %s, %d errors reported; %s", line(a).c_str(), r ? "accepted" : "rejected", errors, show(got).c_str());
    string err;
    auto bad = [&](const char* w) { if (err.empty()) err = string(w) + " (reference: " + show(x.s) + "; actual: " + show(got) + ")"; };
    for (size_t i = 0; i < a.size(); i++) if (argv[i] != copy[i] || a[i] != copy[i]) bad("arguments are modified");
    if (r != 0 && r != 1) bad("neither accepted nor rejected");
    else if (x.kind == OK) {
      if (r != 1) bad("well-formed arguments are rejected");
      else if (errors) { if (!x.any_neg) bad("an error is reported for well-formed arguments"); }
      else { if (x.any_neg && got.duration < 0) got.duration = x.s.duration; if (!same(got, x.s)) bad("a setting differs from the arguments"); }
    } else if (x.kind == FATAL) {
      if (r == 1 && !errors) bad("malformed arguments are silently accepted");
      else if (r == 1) bad("malformed arguments do not stop the program");
      else if (!errors) bad("malformed arguments are rejected without an error message");
    } else if (r == 1) {
      if (!errors) bad("malformed arguments are silently accepted");
      cli_t g = got; if (x.workers_one && g.workers == 1) g.workers = x.s.workers; if (x.any_neg && g.duration < 0) g.duration = x.s.duration;
      if (x.any_clock) { g.period = x.s.period; g.exchanges = x.s.exchanges; }
      if (!same(g, x.s)) bad("a malformed argument alters settings");
    } else if (!errors) bad("malformed arguments are rejected without an error message");
    if (err.empty() && !RTI && r == 1 && x.kind == OK && !x.any_neg) { // the stop tag that follows from the timeout
      for (long long start : {0LL, 1700000000000000000LL, LLONG_MAX - 5}) {
        long long t; unsigned m; bool ok = cli_stop_tag(start, &t, &m);
        __int128 sum = (__int128)start + got.duration; bool forever = got.duration < 0 || sum >= LLONG_MAX;
        if (!ok || (forever ? t != LLONG_MAX || m == 0 : t != (long long)sum || m != 0)) { char b2[200]; snprintf(b2, sizeof b2, "stop tag (%lld, %u) for start %lld and timeout %lld", t, m, start, got.duration); bad(b2); }
      }
    }
    en::state(en::mix(en::mix((uint64_t)r, (uint64_t)errors), std::hash<string>()(show(got))));
    if (!r) rejected = true;
    keep = want = got; cli_set(&keep);
    for (char* c : copy) free(c);
    free(argv);
    if (!err.empty()) en::fail("%s: %s", line(a).c_str(), err.c_str());
    if (x.kind == SOFT || x.any_neg) return;
  }
}
static const vector<string> vocab_prog = {"-f", "--fast", "true", "false", "-o", "--timeout", "5", "0", "-1", "sec", "msecs", "secx", "-k", "--keepalive", "-w", "--workers", "3", "3x", "", "--ros-args", "-x", "TRUE", "5 ", "99999999999999999999"};
static const vector<string> vocab_fed = {"-i", "--id", "fed1", "-r", "--rti", "localhost", "user@host", "host:1234", "host:65536", "-f", "true", "-w", "2", "--ros-args", "a b", "-o", "1", "sec"};
static const vector<string> vocab_rti = {"-i", "--id", "fed1", "-n", "--number_of_federates", "2", "2x", "-5", "4294967297", "-p", "--port", "65534", "65535", "-c", "--clock_sync", "on", "off", "init", "period", "exchanges-per-interval", "-a", "-t", "--tracing", " ", "-x"};
static const vector<string>& vocab() { return RTI ? vocab_rti : FED ? vocab_fed : vocab_prog; }
// tokens
static void one_raw() {
  int n = en::ch(en::thorough() ? 5 : 4, "arguments"); vector<string> v;
  if (en::thorough() && en::argi("LEN", 0)) n = (int)en::argi("LEN", 0);
  for (int i = 0; i < n; i++) v.push_back(vocab()[(size_t)en::ch((int)vocab().size(), "argument")]);
  check(v, RTI ? 0 : (size_t)en::ch(n + 1, "arguments taken from the defaults"));
}
typedef vector<vector<string>> Items;
static Items few();
static Items values() { // every option with every value
  Items r;
  if (FED) r = few();
  if (!RTI && !FED) {
    for (auto o : {"-f", "--fast", "-k", "--keepalive"}) for (auto v : {"true", "false", "", "True", "1", "truex", "fals"}) r.push_back({o, v});
    for (auto o : {"-w", "--workers"}) for (auto v : {"1", "2", "64", "2147483647", "0", "-1", "-0", "2147483648", "4294967297", "4294967295", "18446744073709551617", "x", "", "2x", "1.5", "0x10", "1e3", "--fast"}) r.push_back({o, v});
    for (auto u : {"nsec", "nsecs", "usec", "usecs", "msec", "msecs", "sec", "secs", "min", "minute", "minutes", "hour", "hours", "day", "days", "week", "weeks", "", "s", "nse", "secx", "secss", "msecond", "weekend", "SEC", "se", " sec", "5"}) {
      for (auto v : {"0", "1", "7", "-1", "-0", "", "x", "1x", "1.5", "0x", "0x10", "00", "1 ", "9223372036854775807", "9223372036854775808", "18446744073709551617"}) { r.push_back({"-o", v, u}); }
      if (long long f = unit(u)) for (int d = 0; d < 2; d++) r.push_back({"--timeout", std::to_string((unsigned long long)(LLONG_MAX / f) + (unsigned)d), u});
    }
    for (auto o : {"--timeout", "-timeout"}) for (auto u : {"nsec", "weeks", "zz"}) r.push_back({o, "3", u});
  }
  if (!RTI) {
    if (FED) { for (auto& x : addrs) { r.push_back({"-r", x.text}); r.push_back({"--rti", x.text}); } for (auto o : {"-i", "--id"}) for (auto v : {"", "x", "Federation 1", "-i"}) r.push_back({o, v}); }
    for (auto o : {"--ros-args", "-", "--", "fast", "-F", "--fas", "--fastx", "-l", "-h", "--help", "true", "--timeout=5", "-ffalse", "--workers=2", "-K"}) r.push_back({o});
    if (!FED) for (auto o : {"-i", "--id", "-r", "--rti"}) r.push_back({o, "x"});
  } else {
    for (auto o : {"-i", "--id"}) for (auto v : {"", "x", "Federation 1", "-n"}) r.push_back({o, v});
    for (auto o : {"-n", "--number_of_federates", "-p", "--port"}) for (auto v : {"1", "2", "65533", "65534", "65535", "65536", "0", "-1", "4294967297", "4294967295", "18446744073709551617", "-18446744073709551615", "", "x", "2x", "1.5", "0x2", "2 "}) r.push_back({o, v});
    for (auto st : {"off", "init", "initial", "on", "On", "", "period", "1"}) {
      for (auto o : {"-c", "--clock_sync"}) r.push_back({o, st});
      for (auto w : {"period", "exchanges-per-interval"}) for (auto v : {"1", "5000000", "2147483647", "2147483648", "4294967297", "9223372036854775806", "9223372036854775808", "0", "-3", "", "x", "3x"}) { r.push_back({"-c", st, w, v}); r.push_back({"-c", st, w, v, "period", "77"}); r.push_back({"-c", st, "exchanges-per-interval", "6", w, v}); }
      r.push_back({"-c", st, "period"}); r.push_back({"-c", st, " ", "period", "8"}); r.push_back({"-c", st, "period", "8", "off"});
    }
    for (auto o : {"-a", "--auth", "-t", "--tracing", " ", "-", "--", "-T", "--trace", "--tracingx", "-h", "on", "2", "--port=3", "-n2", ""}) r.push_back({o});
  }
  return r;
}
static Items few() { // representatives
  if (RTI) return {{"-i", "fed"}, {"-n", "3"}, {"--number_of_federates", "0"}, {"-p", "1234"}, {"-p", "70000"}, {"-c", "on"}, {"-c", "off"}, {"-c", "on", "period", "5"}, {"-c", "init", "exchanges-per-interval", "3"}, {"-c", "on", "exchanges-per-interval", "3", "period", "9"}, {"-c", "off", "period", "4"}, {"-c"}, {"-t"}, {"-a"}, {" "}, {"-z"}, {"-c", "on", "period", "0"}, {"-n", "5x"}};
  Items r = {{"-f", "true"}, {"--fast", "false"}, {"-f", "x"}, {"-o", "5", "sec"}, {"--timeout", "0", "nsec"}, {"-timeout", "3", "weeks"}, {"-o", "5x", "sec"}, {"-o", "1", "secx"}, {"-k", "true"}, {"--keepalive", "false"}, {"-k"}, {"-w", "2"}, {"--workers", "0"}, {"--ros-args"}, {"-z"}, {"-o", "9"}};
  if (FED) { r = {{"-f", "true"}, {"-o", "5", "sec"}, {"-o", "5x", "sec"}, {"-w", "2"}, {"-z"}}; r.push_back({"-i", "fed"}); r.push_back({"--id", "f2"}); r.push_back({"-r", "localhost"}); r.push_back({"--rti", "user@host"}); r.push_back({"-r", "host:1234"}); r.push_back({"-r", "host:65536"}); }
  return r;
}
static void one_items() {
  static Items all = values(), rep = few();
  int mode = en::ch(3, "shape"); vector<string> v; size_t split = 0;
  auto add = [&](const vector<string>& x) { v.insert(v.end(), x.begin(), x.end()); };
  if (mode == 0) { add(all[(size_t)en::ch((int)all.size(), "option")]); split = !RTI && en::ch(2, "as a default") ? v.size() : 0; }
  else if (mode == 1) { bool first = en::ch(2, "order"); const auto &x = all[(size_t)en::ch((int)all.size(), "option")], &y = rep[(size_t)en::ch((int)rep.size(), "other option")]; add(first ? x : y); if (!RTI && en::ch(2, "as a default")) split = v.size(); add(first ? y : x); }
  else { int n = en::thorough() ? (FED ? 3 : 5) : FED ? 2 : 3; n = 1 + en::ch(n, "options"); int k = RTI ? 0 : en::ch(n + 1, "options taken from the defaults"); for (int i = 0; i < n; i++) { if (i == k) split = v.size(); add(rep[(size_t)en::ch((int)rep.size(), "option")]); } if (k == n) split = v.size(); }
  check(v, RTI ? 0 : split);
}
static void init() {
  if (!en::verbose()) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); }
  cli_errors(on_msg);
}
int main(int argc, char** argv) {
  const char* c = getenv("CASE"); if (!c) return 3;
  if (!strcmp(c, "vectors")) return en::run(argc, argv, one_raw, init);
  if (!strcmp(c, "options")) return en::run(argc, argv, one_items, init);
  return 3;
}
