#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { VS_END, VS_WAIT, VS_CONNECT, VS_LISTEN, VS_SEND, VS_RECV, VS_CLOSE };
struct visit_step { int op; int64_t arg; int len; unsigned char data[400]; };
void hx_visit_next(int i, struct visit_step* s);             // the next step
void hx_visit_got(int i, const unsigned char* data, long n); // result of a step: bytes received, 0 or -1
int visit_main(void*);
#ifdef __cplusplus
}
#endif
