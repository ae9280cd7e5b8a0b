// Sockets of the TCP2 backend: every call goes to the coordinator, which plays the network.
// Linked with -Wl,--wrap=CALL; descriptors from 40 on are simulated.
#define _GNU_SOURCE
#include "simproto.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/select.h>

#define FD0 40
#define SIMULATED(fd) (sim_fd >= 0 && (fd) >= FD0)

static int32_t call(int kind, int a, int b, int c, const void* pl, int64_t len, SimMsg* out, void** res)
{
  SimMsg m = { .type = SP_SOCK, .len = len };
  m.a[0] = kind; m.a[1] = a; m.a[2] = b; m.a[3] = c;
  void* p = sim_call(&m, pl);
  if (out) *out = m;
  if (res) *res = p; else free(p);
  if (m.a[0] < 0) errno = m.a[1];
  return m.a[0];
}
int __wrap_socket(int d, int t, int p) { (void) d; (void) t; (void) p; return call(SK_SOCKET, 0, 0, 0, 0, 0, 0, 0); }
int __wrap_setsockopt(int fd, int l, int n, const void* v, socklen_t s) { (void) l; (void) n; (void) v; (void) s; if (!SIMULATED(fd)) { errno = EBADF; return -1; } return 0; }
static int portOf(const struct sockaddr* a) { return a->sa_family == AF_INET ? ntohs(((const struct sockaddr_in*) a)->sin_port) : 0; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l) { (void) l; return call(SK_BIND, fd, portOf(a), 0, 0, 0, 0, 0); }
int __wrap_listen(int fd, int n) { return call(SK_LISTEN, fd, n, 0, 0, 0, 0, 0); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) { (void) l; return call(SK_CONNECT, fd, portOf(a), 0, 0, 0, 0, 0); }
static void addr(struct sockaddr* a, socklen_t* l, int port)
{
  struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(0x7f000001); s.sin_port = htons(port);
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l)
{
  int r = call(SK_ACCEPT, fd, 0, 0, 0, 0, 0, 0);
  if (r >= 0 && a) addr(a, l, 1);
  return r;
}
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
  int r = call(SK_NAME, fd, 0, 0, 0, 0, 0, 0);
  if (r < 0) return r;
  addr(a, l, r); return 0;
}
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
ssize_t __wrap_read(int fd, void* b, size_t n)
{
  if (!SIMULATED(fd)) return __real_read(fd, b, n);
  SimMsg m; void* p = 0;
  memset(b, 0x6b, n); // whatever was there may be overwritten
  int r = call(SK_READ, fd, (int) n, 0, 0, 0, &m, &p);
  if (r > 0) memcpy(b, p, r);
  free(p);
  return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
  if (!SIMULATED(fd)) return __real_write(fd, b, n);
  return call(SK_WRITE, fd, (int) n, 0, b, n, 0, 0);
}
int __wrap_close(int fd)
{
  if (!SIMULATED(fd)) return __real_close(fd);
  return call(SK_CLOSE, fd, 0, 0, 0, 0, 0, 0);
}
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv)
{
  if (sim_fd < 0) return __real_select(n, r, w, e, tv);
  int32_t fds[FD_SETSIZE]; int c = 0;
  for (int i = 0; i < n; i++) if (r && FD_ISSET(i, r)) { fds[c++] = i; FD_CLR(i, r); }
  SimMsg m; void* p = 0;
  int k = call(SK_SELECT, c, tv ? 0 : 1, 0, fds, c * 4, &m, &p);
  for (int i = 0; i < k; i++) FD_SET(((int32_t*) p)[i], r);
  free(p);
  return k;
}
static struct sockaddr_in sin_;
int __wrap_getaddrinfo(const char* host, const char* port, const struct addrinfo* h, struct addrinfo** res)
{
  (void) host; (void) h;
  struct addrinfo* a = calloc(1, sizeof *a);
  sin_.sin_family = AF_INET; sin_.sin_addr.s_addr = htonl(0x7f000001); sin_.sin_port = htons(port ? atoi(port) : 0);
  a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (struct sockaddr*) &sin_; a->ai_addrlen = sizeof sin_;
  *res = a;
  return 0;
}
int __wrap_gethostname(char* n, size_t l) { strncpy(n, "simhost", l); return 0; }
