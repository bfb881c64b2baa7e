// Small concurrent programs with known outcomes, used to test the engine itself.
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <errno.h>
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER, m2 = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t c = PTHREAD_COND_INITIALIZER;
int x, y, r1, r2, flag; int items;
static void* inc_(void* a) { int t = x; x = t + 1; return 0; }
int sut_race(void* a) { pthread_t t[2]; for (int i = 0; i < 2; i++) pthread_create(&t[i], 0, inc_, 0); for (int i = 0; i < 2; i++) pthread_join(t[i], 0); return x; }
static void* linc(void* a) { pthread_mutex_lock(&m); int t = x; x = t + 1; pthread_mutex_unlock(&m); return 0; }
int sut_locked(void* a) { pthread_t t[3]; for (int i = 0; i < 3; i++) pthread_create(&t[i], 0, linc, 0); for (int i = 0; i < 3; i++) pthread_join(t[i], 0); return x; }
static void* ab(void* a) { pthread_mutex_lock(&m); pthread_mutex_lock(&m2); x++; pthread_mutex_unlock(&m2); pthread_mutex_unlock(&m); return 0; }
static void* ba(void* a) { pthread_mutex_lock(&m2); pthread_mutex_lock(&m); x++; pthread_mutex_unlock(&m); pthread_mutex_unlock(&m2); return 0; }
int sut_dead(void* a) { pthread_t t[2]; pthread_create(&t[0], 0, ab, 0); pthread_create(&t[1], 0, ba, 0); for (int i = 0; i < 2; i++) pthread_join(t[i], 0); return x; }
static void* prod(void* a) { pthread_mutex_lock(&m); items++; pthread_cond_signal(&c); pthread_mutex_unlock(&m); return 0; }
static void* cons(void* a) { pthread_mutex_lock(&m); while (!items) pthread_cond_wait(&c, &m); items--; x++; pthread_mutex_unlock(&m); return 0; }
int sut_pc(void* a) { pthread_t t[4]; for (int i = 0; i < 2; i++) pthread_create(&t[i], 0, cons, 0); for (int i = 2; i < 4; i++) pthread_create(&t[i], 0, prod, 0); for (int i = 0; i < 4; i++) pthread_join(t[i], 0); return x; }
// lost wake-up: predicate tested outside of the lock
static void* badcons(void* a) { if (!flag) { pthread_mutex_lock(&m); pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); } return 0; }
static void* badprod(void* a) { flag = 1; pthread_mutex_lock(&m); pthread_cond_signal(&c); pthread_mutex_unlock(&m); return 0; }
int sut_lost(void* a) { pthread_t t[2]; pthread_create(&t[0], 0, badcons, 0); pthread_create(&t[1], 0, badprod, 0); for (int i = 0; i < 2; i++) pthread_join(t[i], 0); return 0; }
// store buffering has 3 outcomes under SC
static void* sb1(void* a) { __sync_synchronize(); x = 1; r1 = y; return 0; }
static void* sb2(void* a) { y = 1; r2 = x; return 0; }
int sut_sb(void* a) { pthread_t t[2]; pthread_create(&t[0], 0, sb1, 0); pthread_create(&t[1], 0, sb2, 0); for (int i = 0; i < 2; i++) pthread_join(t[i], 0); return r1 * 2 + r2; }
int sut_uaf(void* a) { int* p = malloc(8); p[0] = 1; free(p); return p[0]; }
int sut_oob(void* a) { char* p = malloc(5); memset(p, 0, 5); return p[5]; }
int sut_df(void* a) { char* p = malloc(5); free(p); free(p); return 0; }
int sut_leak(void* a) { char* p = malloc(5); p[0] = 1; return 0; }
static void* tw(void* a) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1; pthread_mutex_lock(&m); int r = 0; while (!items && r != ETIMEDOUT) r = pthread_cond_timedwait(&c, &m, &ts); x = items ? 1 : 2; pthread_mutex_unlock(&m); return 0; }
static void* sl(void* a) { struct timespec ts = {1, 0}; nanosleep(&ts, 0); pthread_mutex_lock(&m); items = 1; pthread_cond_signal(&c); pthread_mutex_unlock(&m); return 0; }
int sut_tw(void* a) { pthread_t t[2]; pthread_create(&t[0], 0, tw, 0); pthread_create(&t[1], 0, sl, 0); for (int i = 0; i < 2; i++) pthread_join(t[i], 0); return x; }
// atomicity bug that needs two preemptions: check-then-act under separate critical sections, three threads
int cnt, over;
static int get(void) { pthread_mutex_lock(&m); int r = cnt; pthread_mutex_unlock(&m); return r; }
static void put(int v) { pthread_mutex_lock(&m); cnt = v; pthread_mutex_unlock(&m); }
static void* rmw(void* a) { put(get() + 1); return 0; }
int sut_rmw3(void* a) { pthread_t t[3]; for (int i = 0; i < 3; i++) pthread_create(&t[i], 0, rmw, 0); for (int i = 0; i < 3; i++) pthread_join(t[i], 0); return cnt; }
