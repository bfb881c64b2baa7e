#include "island.h"
#include "glue.h"
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
extern "C" unsigned char __start_isldata[] __attribute__((weak)), __stop_isldata[] __attribute__((weak)), __start_islbss[] __attribute__((weak)), __stop_islbss[] __attribute__((weak));
namespace isl {
#define ARENA (1 << 20)
static unsigned char arena[ARENA] __attribute__((aligned(16))); static size_t used; struct Free { size_t n; Free* next; }; static Free* flist; static int locked;
const unsigned char* in; size_t in_len, in_pos; int in_fd; bool in_eof; bool broken[8]; std::vector<Out> out;
static jmp_buf jb; static char text[600]; static std::string pristine;
static void stop(int w, const char* f, ...) { va_list a; va_start(a, f); vsnprintf(text, sizeof text, f, a); va_end(a); longjmp(jb, w); }
const char* why() { return text; }
static size_t nd() { return __stop_isldata - __start_isldata; }
static size_t nb() { return __stop_islbss - __start_islbss; }
// Only the blocks of static data that ever changed are saved.
#define BL 64
static std::vector<unsigned> dirty; static std::vector<char> isdirty; static std::string pd, pb; static size_t blocks() { return (nd() + BL - 1) / BL + (nb() + BL - 1) / BL; }
static unsigned char* block(unsigned k, size_t& n, const unsigned char*& orig) {
  size_t db = (nd() + BL - 1) / BL; bool d = k < db; size_t o = (d ? k : k - db) * BL, tot = d ? nd() : nb();
  n = tot - o < BL ? tot - o : BL; orig = (const unsigned char*)(d ? pd : pb).data() + o; return (d ? __start_isldata : __start_islbss) + o;
}
static void scan() { for (unsigned k = 0; k < isdirty.size(); k++) if (!isdirty[k]) { size_t n; const unsigned char* o; unsigned char* p = block(k, n, o); if (memcmp(p, o, n)) { isdirty[k] = 1; dirty.push_back(k); } } }
size_t size() { scan(); return sizeof used + sizeof flist + sizeof locked + 4 + dirty.size() * BL + used; }
void save(unsigned char* p) {
  memcpy(p, &used, sizeof used); p += sizeof used; memcpy(p, &flist, sizeof flist); p += sizeof flist; memcpy(p, &locked, sizeof locked); p += sizeof locked;
  unsigned c = dirty.size(); memcpy(p, &c, 4); p += 4;
  for (unsigned k : dirty) { size_t n; const unsigned char* o; unsigned char* b = block(k, n, o); memcpy(p, b, n); p += BL; }
  memcpy(p, arena, used);
}
void restore(const unsigned char* p, size_t) {
  scan();
  memcpy(&used, p, sizeof used); p += sizeof used; memcpy(&flist, p, sizeof flist); p += sizeof flist; memcpy(&locked, p, sizeof locked); p += sizeof locked;
  unsigned c; memcpy(&c, p, 4); p += 4;
  for (unsigned i = 0; i < dirty.size(); i++) { size_t n; const unsigned char* o; unsigned char* b = block(dirty[i], n, o); if (i < c) { memcpy(b, p, n); p += BL; } else memcpy(b, o, n); }
  memcpy(arena, p, used);
}
static std::vector<std::string> mask; // bytes that count threads, which are new for each message here
uint64_t statics() { scan(); uint64_t h = locked; for (unsigned k : dirty) { size_t n; const unsigned char* o; unsigned char* b = block(k, n, o); const uint64_t* x = (const uint64_t*)b, *y = (const uint64_t*)mask[k].data(); for (size_t i = 0; i < n / 8; i++) { h = (h ^ (x[i] & y[i])) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } for (size_t i = n & ~7; i < n; i++) h = (h ^ (b[i] & mask[k][i])) * 0x100000001b3ULL; } return h; }
void init() {
  pd.assign((char*)__start_isldata, nd()); pb.assign((char*)__start_islbss, nb()); isdirty.assign(blocks(), 0); mask.assign(blocks(), std::string(BL, '\xff'));
  for (int t = 0; t < 300; t++) { g_newthread(); for (unsigned k = 0; k < blocks(); k++) { size_t n; const unsigned char* o; unsigned char* b = block(k, n, o); for (size_t i = 0; i < n; i++) if (b[i] != o[i]) mask[k][i] = 0; } }
  for (unsigned k = 0; k < blocks(); k++) { size_t n; const unsigned char* o; unsigned char* b = block(k, n, o); memcpy(b, o, n); }
  pristine.resize(size()); save((unsigned char*)&pristine[0]);
}
void reset() { restore((const unsigned char*)pristine.data(), pristine.size()); }
int run(int f) {
  out.clear(); text[0] = 0;
  int r = setjmp(jb);
  if (r == 0) g_thread(f);
  if (r == 0 || r == IDLE) if (locked) { snprintf(text, sizeof text, "the coordinator's mutex is still held after handling a message"); return LOCK; }
  return r;
}
extern "C" {
void* isl_malloc(size_t n) {
  n = (n + 15) & ~(size_t)15; if (!n) n = 16;
  for (Free** q = &flist; *q; q = &(*q)->next) if ((*q)->n == n) { Free* r = *q; *q = r->next; return r; }
  if (used + n + 16 > ARENA) stop(MEMORY, "the coordinator uses more and more memory");
  unsigned char* p = arena + used; *(size_t*)p = n; used += n + 16; return p + 16;
}
void isl_free(void* p) { if (!p) return; size_t n = *(size_t*)((unsigned char*)p - 16); Free* q = (Free*)p; q->n = n; q->next = flist; flist = q; }
void* isl_calloc(size_t a, size_t b) { void* p = isl_malloc(a * b); memset(p, 0, a * b); return p; }
void* isl_realloc(void* p, size_t n) { void* q = isl_malloc(n); if (p) { size_t o = *(size_t*)((unsigned char*)p - 16); memcpy(q, p, o < n ? o : n); isl_free(p); } return q; }
char* isl_strdup(const char* s) { char* p = (char*)isl_malloc(strlen(s) + 1); strcpy(p, s); return p; }
int isl_pthread_mutex_lock(void*) { if (locked) stop(LOCK, "the coordinator locks its mutex while holding it"); locked = 1; return 0; }
int isl_pthread_mutex_trylock(void*) { if (locked) return EBUSY; locked = 1; return 0; }
int isl_pthread_mutex_unlock(void*) { if (!locked) stop(LOCK, "the coordinator unlocks its mutex without holding it"); locked = 0; return 0; }
int isl_pthread_mutex_init() { return 0; }
int isl_pthread_mutex_destroy() { return 0; }
int isl_pthread_mutexattr_init() { return 0; }
int isl_pthread_mutexattr_settype() { return 0; }
int isl_pthread_mutexattr_destroy() { return 0; }
int isl_pthread_cond_init() { return 0; }
int isl_pthread_cond_destroy() { return 0; }
int isl_pthread_condattr_init() { return 0; }
int isl_pthread_condattr_setclock() { return 0; }
int isl_pthread_cond_signal() { return 0; }
int isl_pthread_cond_broadcast() { return 0; }
int isl_pthread_create() { return 0; }
int isl_pthread_join() { return 0; }
int isl_pthread_detach() { return 0; }
int isl_nanosleep() { return 0; }
int isl_clock_nanosleep() { return 0; }
int isl_usleep() { return 0; }
int isl_sleep() { return 0; }
int isl_shutdown() { return 0; }
int isl_close() { return 0; }
int isl_puts() { return 0; }
int isl_putchar() { return 0; }
int isl_fputs() { return 0; }
int isl_fputc() { return 0; }
int isl_fflush() { return 0; }
int isl_perror() { return 0; }
int isl_sched_yield() { return 0; }

struct Emu { size_t size, align; void* obj; void* templ; };
void* isl___emutls_get_address(Emu* e) { if (!e->obj) { e->obj = isl_malloc(e->size); if (e->templ) memcpy(e->obj, e->templ, e->size); else memset(e->obj, 0, e->size); } return e->obj; }
int isl_pthread_cond_wait(void*, void*) { stop(BLOCKED, "a handler of the coordinator waits for a condition that nobody will signal"); return 0; }
long isl_read(int fd, void* b, size_t n) {
  if (fd < 0) { errno = EBADF; return -1; }
  if (fd != in_fd) stop(BLOCKED, "the handler of one node reads from another node's connection");
  if (in_pos == in_len) { if (in_eof) return 0; if (locked) stop(LOCK, "the coordinator waits for input while holding its mutex"); longjmp(jb, IDLE); }
  if (n > in_len - in_pos) n = in_len - in_pos;
  memcpy(b, in + in_pos, n); in_pos += n; return (long)n;
}
long isl_recv(int fd, void* b, size_t n, int) { return isl_read(fd, b, n); }
long isl_write(int fd, const void* b, size_t n) {
  if (fd < 100 || fd >= 108) { errno = EBADF; return -1; }
  if (broken[fd - 100]) { errno = EPIPE; return -1; }
  if (out.empty() || out.back().fd != fd) out.push_back({fd, std::string()});
  out.back().bytes.append((const char*)b, n); return (long)n;
}
long isl_send(int fd, const void* b, size_t n, int) { return isl_write(fd, b, n); }
int isl_pthread_cond_timedwait(void* a, void* b) { return isl_pthread_cond_wait(a, b); }
void isl__exit(int) { stop(EXIT, "the coordinator gives up"); }
void isl_abort() { stop(EXIT, "the coordinator aborts"); }
void isl_exit(int) { stop(EXIT, "the coordinator gives up"); }
int isl_vfprintf(FILE*, const char*, va_list) { return 0; }
int isl_printf(const char*, ...) { return 0; }
int isl_fprintf(FILE*, const char*, ...) { return 0; }
int isl_clock_gettime(int, struct timespec* t) { t->tv_sec = 5; t->tv_nsec = 0; return 0; }
int isl___assert_fail(const char* e, const char*, unsigned, const char*) { stop(EXIT, "assertion failed in the coordinator: %s", e); return 0; }
}
}
