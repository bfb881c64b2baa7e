#include <pthread.h>
#include <string.h>
#include "net_util.h"
#include "util.h"
#include "rti_remote.h"
#include "net_glue.h"
static lf_mutex_t mutex;
void net_init(void) { lf_register_print_function(net_on_message, LOG_LEVEL_ERROR); lf_mutex_init(&mutex); }
#define MSG "Failed for peer %u of %s", 4294967289u, "x"
int net_read(int fn, int* fd, size_t n, unsigned char* b, int m) {
  if (fn == 0) return read_from_socket(*fd, n, b);
  if (fn == 1) return read_from_socket_close_on_error(fd, n, b);
  read_from_socket_fail_on_error(fd, n, b, m ? &mutex : NULL, MSG); return 0;
}
int net_write(int fn, int* fd, size_t n, unsigned char* b, int m) {
  if (fn == 0) return write_to_socket(*fd, n, b);
  if (fn == 1) return write_to_socket_close_on_error(fd, n, b);
  write_to_socket_fail_on_error(fd, n, b, m ? &mutex : NULL, MSG); return 0;
}
ssize_t net_peek(int fd, unsigned char* c) { return peek_from_socket(fd, c); }
void net_mutex_lock(int on) { if (on) lf_mutex_lock(&mutex); }
void net_mutex_unlock(int on) { if (on) lf_mutex_unlock(&mutex); }
static void* try_lock(void* r) { *(int*)r = pthread_mutex_trylock((pthread_mutex_t*)&mutex) != 0; if (!*(int*)r) pthread_mutex_unlock((pthread_mutex_t*)&mutex); return NULL; }
int net_mutex_locked(int on) { int r = 0; pthread_t t; if (!on) return 0; pthread_create(&t, NULL, try_lock, &r); pthread_join(t, NULL); return r; }
void net_enc64(int64_t v, unsigned char* b) { encode_int64(v, b); }
int64_t net_ext64(unsigned char* b) { return extract_int64(b); }
void net_enc32(int32_t v, unsigned char* b) { encode_int32(v, b); }
int32_t net_ext32(unsigned char* b) { return extract_int32(b); }
void net_encu32(uint32_t v, unsigned char* b) { encode_uint32(v, b); }
uint32_t net_extu32(unsigned char* b) { unsigned char t[12] = {0}; memcpy(t + 8, b, 4); return extract_tag(t).microstep; }
void net_encu16(uint16_t v, unsigned char* b) { encode_uint16(v, b); }
uint16_t net_extu16(unsigned char* b) { return extract_uint16(b); }
void net_enctag(unsigned char* b, int64_t t, uint32_t m) { encode_tag(b, (tag_t){t, m}); }
void net_exttag(unsigned char* b, int64_t* t, uint32_t* m) { tag_t g = extract_tag(b); *t = g.time; *m = g.microstep; }
void net_header(unsigned char* b, uint16_t* p, uint16_t* f, size_t* l) { extract_header(b, p, f, l); }
void net_timed_header(unsigned char* b, uint16_t* p, uint16_t* f, size_t* l, int64_t* t, uint32_t* m) { tag_t g; extract_timed_header(b, p, f, l, &g); *t = g.time; *m = g.microstep; }
void net_addr(const char* s, int* flags, char* u, char* h, char* p) {
  rti_addr_info_t i; memset(&i, 0, sizeof i);
  extract_rti_addr_info(s, &i);
  *flags = (i.has_user ? 1 : 0) | (i.has_host ? 2 : 0) | (i.has_port ? 4 : 0);
  strcpy(u, i.rti_user_str); strcpy(h, i.rti_host_str); strcpy(p, i.rti_port_str);
}
int net_valid_port(char* p) { return validate_port(p); }
int net_valid_user(const char* u) { return validate_user(u); }
int net_valid_host(const char* h) { return validate_host(h); }
