#pragma once
#define GN 6
#define G_T0 1000000000LL
#ifdef __cplusplus
extern "C" {
#endif
void g_setup(int n, int ne, const int* u, const int* v, const long long* d); // delay -1: none
void g_thread(int f); void g_newthread(void);
unsigned long long g_hash(void);
void g_show(int f, char* b);
int g_delays(int f, int* ids, long long* t, unsigned* m, int* cyc, int* zdc);
void g_connected(int f, int on);
void g_invalidate(int f);
#ifdef __cplusplus
}
#endif
