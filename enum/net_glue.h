#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
void net_init(void); void net_on_message(const char* f, va_list a);
int net_read(int fn, int* fd, size_t n, unsigned char* b, int mutex); int net_write(int fn, int* fd, size_t n, unsigned char* b, int mutex); ssize_t net_peek(int fd, unsigned char* c);
void net_mutex_lock(int on); int net_mutex_locked(int on); void net_mutex_unlock(int on);
void net_enc64(int64_t, unsigned char*); int64_t net_ext64(unsigned char*); void net_enc32(int32_t, unsigned char*); int32_t net_ext32(unsigned char*); void net_encu32(uint32_t, unsigned char*); uint32_t net_extu32(unsigned char*);
void net_encu16(uint16_t, unsigned char*); uint16_t net_extu16(unsigned char*); void net_enctag(unsigned char*, int64_t, uint32_t); void net_exttag(unsigned char*, int64_t*, uint32_t*);
void net_header(unsigned char*, uint16_t*, uint16_t*, size_t*); void net_timed_header(unsigned char*, uint16_t*, uint16_t*, size_t*, int64_t*, uint32_t*);
void net_addr(const char* s, int* flags, char* u, char* h, char* p); int net_valid_port(char* p); int net_valid_user(const char* u); int net_valid_host(const char* h);
