// Wire formats, socket helpers under every pattern of partial transfers and errors, and coordinator addresses.
#include "en.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "net_glue.h"
}
using std::string; using std::vector;
// ------------------------------------------------------------------ the simulated socket
enum { FD = 4711 };
static bool sim; static vector<unsigned char> stream; static size_t pos, want; static int dir, hard, eof, faults, maxf, calls, shut, closed, afterwards, wrongsize, slept, exited = -1; static string reported; static int peekmode;
struct Exit { int code; };
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int); void __real_exit(int) __attribute__((noreturn)); int __real_nanosleep(const timespec*, timespec*); int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
static ssize_t transfer(void* b, size_t n) {
  calls++;
  if (hard || eof) afterwards++;
  if (n > want - pos) wrongsize++;
  if (n == 0) return 0;
  if (calls > 200) { afterwards += 100; errno = EIO; return -1; }
  int k = faults < maxf ? en::ch(dir ? 10 : 10, "transfer") : 0; if (k) faults++;
  size_t m = n;
  switch (k) {
  case 1: m = 1; break;
  case 2: m = n > 1 ? n - 1 : 1; break;
  case 3: m = (n + 1) / 2; break;
  case 4: errno = EINTR; return -1;
  case 5: errno = EAGAIN; return -1;
  case 6: errno = EWOULDBLOCK; return -1;
  case 7: if (dir) { errno = 0; return 0; } eof = 1; errno = en::ch(2, "errno") ? EAGAIN : 0; return 0;
  case 8: hard = ECONNRESET; errno = hard; return -1;
  case 9: hard = dir ? EPIPE : ETIMEDOUT; errno = hard; return -1;
  }
  if (pos + m > stream.size() && !dir) m = stream.size() - pos;
  if (dir) { for (size_t i = 0; i < m; i++) stream.push_back(((const unsigned char*)b)[i]); } else memcpy(b, &stream[pos], m);
  pos += m;
  return (ssize_t)m;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { if (sim && fd == FD) return transfer(b, n); return __real_read(fd, b, n); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) {
  if (peekmode < 0) return transfer(b, n);
  if (fd != FD || n != 1 || !(fl & MSG_PEEK) || !(fl & MSG_DONTWAIT)) wrongsize++;
  switch (peekmode) { case 0: *(unsigned char*)b = 0xa7; return 1; case 1: errno = EAGAIN; return -1; case 2: errno = EWOULDBLOCK; return -1; case 3: errno = ECONNRESET; return -1; default: errno = EAGAIN; return 0; }
}
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (sim && fd == FD) return transfer((void*)b, n); return __real_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int) { (void)fd; return transfer((void*)b, n); }
int __wrap_shutdown(int fd, int) { if (fd == FD) shut++; else if (fd >= 0) wrongsize++; return 0; }
int __wrap_close(int fd) { if (sim) { if (fd == FD) closed++; else if (fd >= 0) wrongsize++; return 0; } return __real_close(fd); }
int __wrap_nanosleep(const timespec* a, timespec* b) { if (sim) { slept++; return 0; } return __real_nanosleep(a, b); }
int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { if (sim) { slept++; return 0; } return __real_clock_nanosleep(c, f, a, b); }
void __wrap_exit(int code) { if (sim) { exited = code; throw Exit{code}; } __real_exit(code); }
void net_on_message(const char* f, va_list a) { char b[1000]; vsnprintf(b, sizeof b, f, a); reported += b; }
}
static void one_socket() {
  dir = en::ch(2, "direction"); int fn = en::ch(3, "helper"); static const size_t sizes[] = {0, 1, 2, 3, 9, 21};
  want = sizes[en::ch(en::thorough() ? 6 : 5, "bytes")]; bool open = en::ch(2, "open") == 0; bool mutex = fn == 2 && en::ch(2, "mutex");
  maxf = en::thorough() ? 6 : 4;
  unsigned char* buf = (unsigned char*)malloc(want ? want : 1); vector<unsigned char> data(want); data.reserve(1); for (size_t i = 0; i < want; i++) data[i] = (unsigned char)(17 * i + 3);
  stream.clear(); stream.reserve(64); if (dir) memcpy(buf, data.data(), want); else { stream = data; memset(buf, 0xee, want ? want : 1); }
  pos = 0; hard = eof = faults = calls = shut = closed = afterwards = wrongsize = slept = 0; exited = -1; reported.clear(); peekmode = -1;
  int fd = open ? FD : -1, r = -99; net_mutex_lock(mutex); errno = 0;
  sim = true;
  try { r = dir ? net_write(fn, &fd, want, buf, mutex) : net_read(fn, &fd, want, buf, mutex); } catch (Exit& e) {}
  int err = errno;
  sim = false; en::step();
  int locked = net_mutex_locked(mutex); net_mutex_unlock(mutex && locked);
  en::say("%s helper %d, %zu bytes%s: returns %d, errno %d, %d calls, %zu bytes moved, exit %d", dir ? "write" : "read", fn, want, open ? "" : ", not open", r, err, calls, pos, exited);
  en::state(en::mix(en::mix((uint64_t)(r + 100), pos), (uint64_t)(fn * 100 + hard + eof * 50 + dir)));
  string bad; auto req = [&](bool c, const char* w) { if (!c && bad.empty()) bad = w; };
  bool fail = !open || hard || eof;
  req(!afterwards, "the helper goes on after an error or the end of the stream");
  req(!wrongsize, "the helper asks for more bytes than remain or uses another descriptor");
  if (!open) req(calls == 0, "a closed socket is used");
  if (!fail) {
    req(pos == want, "success without all bytes");
    req(exited < 0 && (fn == 2 || r == 0), "failure reported although all bytes were transferred");
    req(dir ? stream == data : !memcmp(buf, data.data(), want), "bytes differ");
    req(fd == FD && !closed && !shut, "socket closed without an error");
    if (mutex) req(locked, "the mutex is released without an error");
  } else {
    if (dir) req(stream.size() <= want && std::equal(stream.begin(), stream.end(), data.begin()), "bytes differ"); else { req(!memcmp(buf, data.data(), pos), "bytes differ"); for (size_t i = pos; i < want; i++) req(buf[i] == 0xee, "bytes beyond those received are written"); }
    if (fn == 0) { req(eof ? r == 1 : r == -1, "wrong result for an error or the end of the stream"); if (!eof) req(err == (open ? hard : EBADF), "errno does not tell the cause"); req(fd == (open ? FD : -1) && !closed, "socket closed"); }
    else { req(fd == -1, "socket not marked closed"); if (open) req(closed == 1, "socket not closed exactly once"); }
    if (fn == 1) req(r == -1, "failure is not reported");
    if (fn == 2) { req(exited > 0, "the program does not exit with an error code"); req(reported.find("peer 4294967289 of x") != string::npos, "the error message lacks its arguments"); if (mutex) req(!locked, "the mutex stays locked"); }
  }
  free(buf);
  if (!bad.empty()) en::fail("%s of %zu bytes, helper %d: %s", dir ? "write" : "read", want, fn, bad.c_str());
}
static void one_peek() {
  peekmode = en::ch(5, "peek"); wrongsize = 0; unsigned char c = 0x11; errno = en::pick({0, EAGAIN, ECONNRESET}, "errno before"); sim = true;
  ssize_t r = net_peek(FD, &c); sim = false; en::step(); en::state((uint64_t)peekmode);
  static const ssize_t w[] = {1, 0, 0, -1, -2};
  EN_REQ(!wrongsize, "peeking may block or consume");
  if (peekmode < 4) EN_REQ(r == w[peekmode], "peek returns %zd instead of %zd", r, w[peekmode]);
  EN_REQ(peekmode == 0 ? c == 0xa7 : c == 0x11, "peek stores a wrong byte");
}
// ------------------------------------------------------------------ wire formats
static void bytes_of(uint64_t v, size_t n, unsigned char* b) { for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(v >> (8 * i)); }
static uint64_t value(int nb, const char* l) { static const unsigned char B[] = {0x00, 0x01, 0x7f, 0x80, 0xff}; uint64_t v = 0; for (int i = 0; i < nb; i++) v |= (uint64_t)B[en::ch(5, l)] << (8 * i); return v; }
static const uint64_t few64[] = {0, 1, 0xff, 0x100, 0x0123456789abcdefULL, 0xfedcba9876543210ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 0x00000000ffffffffULL, 0x8000000080000000ULL};
static void one_encode() {
  int t = en::ch(7, "format"); size_t al = t || en::thorough() ? (size_t)en::ch(3, "alignment") : 1;
  unsigned char raw[64], *b = raw + al, w[64]; memset(raw, 0xcc, sizeof raw); memset(w, 0xcc, sizeof w);
  size_t n = 0; string bad; en::step();
  auto enc = [&](size_t k) { n = k; if (memcmp(b, w, k)) bad = "bytes on the wire are not the little-endian ones"; for (size_t i = 0; i < al; i++) if (raw[i] != 0xcc) bad = "bytes before the field are written"; for (size_t i = al + k; i < sizeof raw; i++) if (raw[i] != 0xcc) bad = "bytes after the field are written"; };
  uint64_t v = 0;
  if (t == 0) { v = value(8, "byte"); net_enc64((int64_t)v, b); bytes_of(v, 8, w); enc(8); if (net_ext64(b) != (int64_t)v) bad = "decoding differs"; }
  else if (t == 1) { v = value(4, "byte"); net_enc32((int32_t)v, b); bytes_of(v, 4, w); enc(4); if (net_ext32(b) != (int32_t)v) bad = "decoding differs"; }
  else if (t == 2) { v = value(4, "byte"); net_encu32((uint32_t)v, b); bytes_of(v, 4, w); enc(4); if (net_extu32(b) != (uint32_t)v) bad = "decoding differs"; }
  else if (t == 3) { v = (uint64_t)en::ch(256, "high") << 8 | (uint64_t)en::ch(256, "low"); net_encu16((uint16_t)v, b); bytes_of(v, 2, w); enc(2); if (net_extu16(b) != (uint16_t)v) bad = "decoding differs"; }
  else if (t == 4) { v = few64[en::ch(11, "time")]; uint32_t m = (uint32_t)value(4, "byte"); net_enctag(b, (int64_t)v, m); bytes_of(v, 8, w); bytes_of(m, 4, w + 8); enc(12); int64_t t2; uint32_t m2; net_exttag(b, &t2, &m2); if (t2 != (int64_t)v || m2 != m) bad = "decoding differs"; }
  else {
    static const uint16_t P[] = {0, 1, 255, 256, 0x1234, 0x7fff, 0x8000, 0xffff}; static const uint32_t L[] = {0, 1, 0xff, 0x100, 0x12345678, 0x7fffffff, 0x80000000u, 0xffffffffu};
    uint16_t p = P[en::ch(8, "port")], f = P[en::ch(8, "federate")]; uint32_t len = L[en::ch(8, "length")]; uint64_t tm = 0; uint32_t m = 0;
    bytes_of(p, 2, b); bytes_of(f, 2, b + 2); bytes_of(len, 4, b + 4);
    uint16_t p2 = 7, f2 = 7; size_t l2 = 7; int64_t t2 = 7; uint32_t m2 = 7;
    if (t == 6) { tm = few64[en::ch(11, "time")]; m = L[en::ch(8, "microstep")]; bytes_of(tm, 8, b + 8); bytes_of(m, 4, b + 16); net_timed_header(b, &p2, &f2, &l2, &t2, &m2); if (t2 != (int64_t)tm || m2 != m) bad = "tag differs"; }
    else net_header(b, &p2, &f2, &l2);
    if (p2 != p || f2 != f || l2 != len) bad = "header differs";
    v = p;
  }
  en::state(en::mix((uint64_t)t, v));
  if (!bad.empty()) en::fail("format %d, value %llx: %s", t, (unsigned long long)v, bad.c_str());
}
// ------------------------------------------------------------------ addresses
static bool cls(char c, bool dot) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || (dot && c == '.'); }
static void check_addr(const string& s) {
  // [user@]host[:port]
  string u, h = s, p; bool hu = false, hp = false, ok = true; size_t at = s.find('@');
  if (at != string::npos) { hu = true; u = s.substr(0, at); h = s.substr(at + 1); }
  size_t co = h.find(':'); if (co != string::npos) { hp = true; p = h.substr(co + 1); h = h.substr(0, co); }
  for (char c : u) ok &= cls(c, false);
  for (char c : h) ok &= cls(c, true);
  for (char c : p) ok &= c >= '0' && c <= '9';
  ok &= !h.empty() && h.size() <= 255 && (!hu || (!u.empty() && u.size() <= 254)) && (!hp || (!p.empty() && p.size() <= 5));
  char U[300], H[300], P[20]; int f = 0; char* copy = strdup(s.c_str()); reported.clear();
  net_addr(copy, &f, U, H, P); en::step(); free(copy);
  en::say("'%s' -> %s user '%s' host '%s' port '%s'", s.c_str(), f ? "accepted" : "rejected", f & 1 ? U : "", f & 2 ? H : "", f & 4 ? P : "");
  en::state(en::mix((uint64_t)f, std::hash<string>()(s)));
  if (!ok) { EN_REQ(!f, "'%s' does not have the form of an address but is split into user '%s', host '%s', port '%s'", s.c_str(), f & 1 ? U : "", f & 2 ? H : "", f & 4 ? P : ""); return; }
  EN_REQ(f == (2 | (hu ? 1 : 0) | (hp ? 4 : 0)), "'%s' is split into other parts (%d)", s.c_str(), f);
  EN_REQ(h == H && (!hu || u == U) && (!hp || p == P), "'%s' is split into user '%s', host '%s', port '%s'", s.c_str(), hu ? U : "", H, hp ? P : "");
  if (hp) EN_REQ(net_valid_port(P) == (atoi(p.c_str()) <= 65535), "validity of port %s", P);
  if (hu) {
    bool v = u.size() <= 32 && ((u[0] >= 'a' && u[0] <= 'z') || u[0] == '_'); for (char c : u) v &= !(c >= 'A' && c <= 'Z');
    EN_REQ(net_valid_user(U) == v, "validity of user %s", U);
  }
}
static void one_addr_raw() {
  static const char A[] = "a1.@:-_ Z"; int n = en::ch(en::thorough() ? 6 : 5, "length"); string s; for (int i = 0; i < n; i++) s += A[en::ch(9, "character")];
  check_addr(s);
}
static void one_addr_parts() {
  auto rep = [](char c, int n) { return string((size_t)n, c); };
  static const vector<string> U = {"", "@", "u@", "user_1-x@", "_@", "9u@", "User@", rep('u', 32) + "@", rep('u', 33) + "@", rep('u', 254) + "@", rep('u', 255) + "@", "u.v@", "u v@", "u@v@"};
  static const vector<string> H = {"", "h", "localhost", "a.b.c", "10.0.0.1", "255.255.255.255", "my_host", "Host", "a-b.example.org", rep('h', 254), rep('h', 255), rep('h', 256), "h!", "h/x", "[::1]"};
  static const vector<string> P = {"", ":", ":0", ":1", ":15045", ":65535", ":65536", ":99999", ":123456", ":00080", ":-1", ":8o", ": 80", ":80 ", ":80:81"};
  check_addr(U[(size_t)en::ch((int)U.size(), "user")] + H[(size_t)en::ch((int)H.size(), "host")] + P[(size_t)en::ch((int)P.size(), "port")]);
}
static void one_host() {
  static const vector<string> ok = {"localhost", "a", "a1", "rti.example.org", "x-y", "x-y.z-w.com", "0.0.0.0", "127.0.0.1", "255.255.255.255", "192.168.10.250", "10.9.8.7"};
  const string& h = ok[(size_t)en::ch((int)ok.size(), "host")]; en::step(); en::state(std::hash<string>()(h));
  EN_REQ(net_valid_host(h.c_str()), "the host %s is rejected", h.c_str());
}
static void init() { if (!en::verbose()) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); __real_close(fd); } net_init(); }
int main(int argc, char** argv) {
  const char* c = getenv("CASE"); if (!c) return 3;
  struct { const char* n; void (*f)(); } t[] = {{"encode", one_encode}, {"socket", one_socket}, {"peek", one_peek}, {"address strings", one_addr_raw}, {"address parts", one_addr_parts}, {"hosts", one_host}};
  for (auto& x : t) if (!strcmp(c, x.n)) return en::run(argc, argv, x.f, init);
  return 3;
}
