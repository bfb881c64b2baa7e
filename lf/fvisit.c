// A process that connects to the coordinator (or waits for connections in its place) and follows a script.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#include "fvisit.h"
void mc_sleep_until(int64_t t);
static long get(int fd, unsigned char* b, long n) { long k = 0; while (k < n) { long r = read(fd, b + k, n - k); if (r <= 0) break; k += r; } return k; }
static int put(int fd, const unsigned char* b, long n) { long k = 0; while (k < n) { long r = write(fd, b + k, n - k); if (r <= 0) return -1; k += r; } return 0; }
int visit_main(void* arg) {
  int lfd = -1, fd = -1;
  unsigned char buf[1024];
  for (int i = 0;; i++) {
    struct visit_step s;
    memset(&s, 0, sizeof s);
    hx_visit_next(i, &s);
    switch (s.op) {
    case VS_END: return 0;
    case VS_WAIT: mc_sleep_until(s.arg); break;
    case VS_CONNECT: {
      struct sockaddr_in a; memset(&a, 0, sizeof a);
      a.sin_family = AF_INET; a.sin_port = htons((unsigned short)s.arg); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      fd = socket(AF_INET, SOCK_STREAM, 0);
      int r = connect(fd, (struct sockaddr*)&a, sizeof a);
      hx_visit_got(i, buf, r);
      break;
    }
    case VS_LISTEN: {
      struct sockaddr_in a; memset(&a, 0, sizeof a);
      a.sin_family = AF_INET; a.sin_port = htons((unsigned short)s.arg); a.sin_addr.s_addr = INADDR_ANY;
      lfd = socket(AF_INET, SOCK_STREAM, 0);
      bind(lfd, (struct sockaddr*)&a, sizeof a); listen(lfd, 5);
      fd = accept(lfd, 0, 0);
      hx_visit_got(i, buf, fd >= 0 ? 0 : -1);
      break;
    }
    case VS_SEND: hx_visit_got(i, buf, put(fd, s.data, s.len)); break;
    case VS_RECV: hx_visit_got(i, buf, get(fd, buf, s.len)); break;
    case VS_CLOSE: shutdown(fd, SHUT_RDWR); close(fd); fd = -1; if (lfd >= 0) close(lfd); lfd = -1; break;
    }
  }
}
