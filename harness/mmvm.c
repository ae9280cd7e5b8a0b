// Runs a program of mini-MPI calls in one process of the TCP backend's own
// message passing (real threads, real sockets), recording all results.
//   mmvm PROGRAM OUT        PROGRAM: lines "<rank> <op> args"
#define _GNU_SOURCE
#include "backends/tcp/minimpi.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/time.h>

// --- disturbances of system calls: everything a kernel may do as well
static int fl_part, fl_again, fl_conn, fl_delay, fl_intr; // chances in percent
static __thread unsigned rs;
static unsigned seed0;
static unsigned rnd(void)
{
  static unsigned threads;
  if (!rs) rs = (seed0 + 7919u * __sync_fetch_and_add(&threads, 1)) * 2654435761u | 1;
  rs ^= rs << 13; rs ^= rs >> 17; rs ^= rs << 5;
  return rs >> 3;
}
static int hit(int pc) { return pc && (int) (rnd() % 100) < pc; }
static void delay(void) { if (hit(fl_delay)) usleep(rnd() % 2000); }
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_poll(struct pollfd*, nfds_t, int);
ssize_t __wrap_send(int fd, const void* b, size_t n, int f)
{
  delay();
  if (n > 1 && hit(fl_again)) { errno = EAGAIN; return -1; } // not for the one byte sent to wake up another thread: its buffer is full only if there are others
  if (n > 1 && hit(fl_part)) n = 1 + rnd() % (n - 1);
  return __real_send(fd, b, n, f);
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f)
{
  delay();
  if (!(f & MSG_PEEK)) {
    if (hit(fl_again)) { errno = EAGAIN; return -1; }
    if (n > 1 && hit(fl_part)) n = 1 + rnd() % (n - 1);
  }
  return __real_recv(fd, b, n, f);
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t n)
{
  delay();
  if (hit(fl_conn)) { errno = ECONNREFUSED; return -1; }
  return __real_connect(fd, a, n);
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n) { delay(); return __real_accept(fd, a, n); }
int __wrap_poll(struct pollfd* p, nfds_t n, int t)
{
  delay();
  if (hit(fl_intr)) { errno = EINTR; return -1; }
  return __real_poll(p, n, t);
}

// --- values
typedef Laik_Tcp_MiniMpiType T;
static const struct { const char* n; T t; int size; } TY[] = {
  { "double", LAIK_TCP_MINIMPI_DOUBLE, 8 }, { "float", LAIK_TCP_MINIMPI_FLOAT, 4 },
  { "int64", LAIK_TCP_MINIMPI_INT64, 8 }, { "int32", LAIK_TCP_MINIMPI_INT32, 4 }, { "int8", LAIK_TCP_MINIMPI_INT8, 1 },
  { "uint64", LAIK_TCP_MINIMPI_UINT64, 8 }, { "uint32", LAIK_TCP_MINIMPI_UINT32, 4 }, { "uint8", LAIK_TCP_MINIMPI_UINT8, 1 } };
static const struct { const char* n; Laik_Tcp_MiniMpiOp o; } OP[] = {
  { "sum", LAIK_TCP_MINIMPI_SUM }, { "prod", LAIK_TCP_MINIMPI_PROD }, { "min", LAIK_TCP_MINIMPI_MIN }, { "max", LAIK_TCP_MINIMPI_MAX },
  { "land", LAIK_TCP_MINIMPI_LAND }, { "lor", LAIK_TCP_MINIMPI_LOR }, { "band", LAIK_TCP_MINIMPI_BAND }, { "bor", LAIK_TCP_MINIMPI_BOR } };
static int ty(const char* s) { for (int i = 0; i < 8; i++) if (!strcmp(TY[i].n, s)) return i; abort(); }
static Laik_Tcp_MiniMpiOp op(const char* s) { for (int i = 0; i < 8; i++) if (!strcmp(OP[i].n, s)) return OP[i].o; abort(); }
static void put(void* b, int t, int i, int v)
{
  switch (TY[t].t) {
    case LAIK_TCP_MINIMPI_DOUBLE: ((double*) b)[i] = v; break;
    case LAIK_TCP_MINIMPI_FLOAT: ((float*) b)[i] = v; break;
    case LAIK_TCP_MINIMPI_INT64: ((int64_t*) b)[i] = v; break;
    case LAIK_TCP_MINIMPI_INT32: ((int32_t*) b)[i] = v; break;
    case LAIK_TCP_MINIMPI_INT8: ((int8_t*) b)[i] = v; break;
    case LAIK_TCP_MINIMPI_UINT64: ((uint64_t*) b)[i] = v; break;
    case LAIK_TCP_MINIMPI_UINT32: ((uint32_t*) b)[i] = v; break;
    case LAIK_TCP_MINIMPI_UINT8: ((uint8_t*) b)[i] = v; break;
  }
}
static double get(const void* b, int t, int i)
{
  switch (TY[t].t) {
    case LAIK_TCP_MINIMPI_DOUBLE: return ((double*) b)[i];
    case LAIK_TCP_MINIMPI_FLOAT: return ((float*) b)[i];
    case LAIK_TCP_MINIMPI_INT64: return ((int64_t*) b)[i];
    case LAIK_TCP_MINIMPI_INT32: return ((int32_t*) b)[i];
    case LAIK_TCP_MINIMPI_INT8: return ((int8_t*) b)[i];
    case LAIK_TCP_MINIMPI_UINT64: return ((uint64_t*) b)[i];
    case LAIK_TCP_MINIMPI_UINT32: return ((uint32_t*) b)[i];
    case LAIK_TCP_MINIMPI_UINT8: return ((uint8_t*) b)[i];
  }
  return 0;
}
#define GUARD 64
static char* buf(int t, int n)
{
  size_t s = (size_t) n * TY[t].size;
  char* p = malloc(s + 2 * GUARD);
  memset(p, 0x5e, s + 2 * GUARD);
  return p + GUARD;
}
// 1: nothing outside of the first <n> elements changed
static int intact(const char* p, int t, int n)
{
  size_t s = (size_t) n * TY[t].size;
  for (int i = 0; i < GUARD; i++) if (p[-1 - i] != 0x5e || p[s + i] != 0x5e) return 0;
  return 1;
}
static FILE* out;
static void vals(const char* p, int t, int n)
{
  fprintf(out, ",\"v\":[");
  for (int i = 0; i < n; i++) {
    double d = get(p, t, i);
    if (d != (int) d || d > 2147483647 || d < -2147483647) d = -2147483647;  // not a value any program uses
    fprintf(out, "%s%d", i ? "," : "", (int) d);
  }
  fprintf(out, "]");
}
static void fill(char* p, int t, int n, const char* spec) // "v0:v1:..." repeated
{
  int v[64], k = 0; char* e; const char* c = spec;
  do { v[k++] = strtol(c, &e, 10); c = e + 1; } while (*e == ':' && k < 64);
  for (int i = 0; i < n; i++) put(p, t, i, v[i % k]);
}
static int64_t now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000LL + t.tv_nsec / 1000; }
static __attribute__((noinline)) void paint(void) { char big[3 * LAIK_TCP_MINIMPI_MAX_PROCESSOR_NAME]; memset(big, 'x', sizeof big); __asm__ volatile("" : : "r"(big) : "memory"); }
static __attribute__((noinline)) void name(void)
{
  char nm[LAIK_TCP_MINIMPI_MAX_PROCESSOR_NAME]; int len = -1;
  int e = laik_tcp_minimpi_get_processor_name(nm, &len);
  fprintf(out, "{\"e\":%d,\"n\":%d,\"len\":%d", e != 0, len, e ? 0 : (int) strnlen(nm, sizeof nm));
}
static void onalarm(int s) { (void) s; }

int main(int argc, char** argv)
{
  (void) argc;
  char *c;
  seed0 = (c = getenv("MM_SEED")) ? (unsigned) atoi(c) : 1;
  c = getenv("MM_FAULTS");
  if (c) sscanf(c, "%d %d %d %d %d", &fl_part, &fl_again, &fl_conn, &fl_delay, &fl_intr);
  int64_t base = (c = getenv("MM_BASE")) ? atoll(c) : 0;
  if (getenv("MM_ALARM")) { // an application using signals
    struct sigaction sa = { .sa_handler = onalarm, .sa_flags = SA_RESTART };
    sigaction(SIGALRM, &sa, 0);
    struct itimerval it = { { 0, 3000 }, { 0, 3000 } };
    setitimer(ITIMER_REAL, &it, 0);
  }
  int init0 = -1, init1 = -1;
  if (laik_tcp_minimpi_initialized(&init0)) return 71;
  if (laik_tcp_minimpi_init(0, 0) != LAIK_TCP_MINIMPI_SUCCESS) return 72;
  if (laik_tcp_minimpi_initialized(&init1)) return 71;
  Laik_Tcp_MiniMpiComm* comm[64] = { LAIK_TCP_MINIMPI_COMM_WORLD };
  int me, size;
  if (laik_tcp_minimpi_comm_rank(comm[0], &me) || laik_tcp_minimpi_comm_size(comm[0], &size)) return 73;
  seed0 += 101 * me;
  char fn[600]; snprintf(fn, sizeof fn, "%s.%d", argv[2], me);
  out = fopen(fn, "wx"); if (!out) return 74;
  fprintf(out, "{\"e\":0,\"r\":%d,\"s\":%d,\"i\":%d}\n", me, size, init0 == 0 && init1 != 0); fflush(out);
  FILE* f = fopen(argv[1], "r"); if (!f) return 75;
  char line[4000];
  while (fgets(line, sizeof line, f)) {
    int r, k, cm, a, b, n, nw; char w[20], t[20], o[20], vs[400];
    if (sscanf(line, "%d %19s%n", &r, w, &k) != 2 || r != me) continue;
    const char* rest = line + k; int e = 0;
    if (!strcmp(w, "send")) {
      sscanf(rest, "%d %d %d %19s %d %399s", &cm, &a, &b, t, &n, vs);
      char* p = buf(ty(t), n); fill(p, ty(t), n, vs);
      e = laik_tcp_minimpi_send(p, n, TY[ty(t)].t, a, b, comm[cm]);
      memset(p, 0x77, (size_t) n * TY[ty(t)].size); // may be reused afterwards
      fprintf(out, "{\"e\":%d}\n", e != 0); free(p - GUARD);
    }
    else if (!strcmp(w, "recv")) {
      sscanf(rest, "%d %d %d %19s %d", &cm, &a, &b, t, &n);
      char* p = buf(ty(t), n); Laik_Tcp_MiniMpiStatus st = 0; int cnt = 0;
      e = laik_tcp_minimpi_recv(p, n, TY[ty(t)].t, a, b, comm[cm], &st);
      if (!e && laik_tcp_minimpi_get_count(&st, TY[ty(t)].t, &cnt)) cnt = -1;
      fprintf(out, "{\"e\":%d,\"n\":%d,\"g\":%d", e != 0, cnt, intact(p, ty(t), n));
      vals(p, ty(t), !e && cnt > 0 && cnt <= n ? cnt : 0); fprintf(out, "}\n"); free(p - GUARD);
    }
    else if (!strcmp(w, "bcast")) {
      sscanf(rest, "%d %d %19s %d %399s", &cm, &a, t, &n, vs);
      char* p = buf(ty(t), n); int rk = -1; (void) !laik_tcp_minimpi_comm_rank(comm[cm], &rk);
      if (rk == a) fill(p, ty(t), n, vs);
      e = laik_tcp_minimpi_bcast(p, n, TY[ty(t)].t, a, comm[cm]);
      fprintf(out, "{\"e\":%d,\"g\":%d", e != 0, intact(p, ty(t), n)); vals(p, ty(t), n); fprintf(out, "}\n"); free(p - GUARD);
    }
    else if (!strcmp(w, "reduce") || !strcmp(w, "allred")) {
      int all = w[0] == 'a', ip;
      sscanf(rest, "%d %d %19s %19s %d %d %399s", &cm, &a, t, o, &n, &ip, vs);
      char *in = buf(ty(t), n), *p = buf(ty(t), n);
      fill(ip ? p : in, ty(t), n, vs);
      int rk = -1; (void) !laik_tcp_minimpi_comm_rank(comm[cm], &rk);
      if (all) e = laik_tcp_minimpi_allreduce(ip ? LAIK_TCP_MINIMPI_IN_PLACE : in, p, n, TY[ty(t)].t, op(o), comm[cm]);
      else e = laik_tcp_minimpi_reduce(ip ? LAIK_TCP_MINIMPI_IN_PLACE : in, p, n, TY[ty(t)].t, op(o), a, comm[cm]);
      int same = 1;
      if (!ip) { char* q = buf(ty(t), n); fill(q, ty(t), n, vs); same = !memcmp(q, in, (size_t) n * TY[ty(t)].size); free(q - GUARD); }
      fprintf(out, "{\"e\":%d,\"g\":%d", e != 0, intact(p, ty(t), n) && intact(in, ty(t), n) && same);
      vals(p, ty(t), all || rk == a ? n : 0); fprintf(out, "}\n"); free(p - GUARD); free(in - GUARD);
    }
    else if (!strcmp(w, "bar")) {
      sscanf(rest, "%d", &cm);
      int64_t t0 = now(); e = laik_tcp_minimpi_barrier(comm[cm]); int64_t t1 = now();
      fprintf(out, "{\"e\":%d,\"t\":[%d,%d]}\n", e != 0, (int) (t0 - base), (int) (t1 - base));
    }
    else if (!strcmp(w, "split") || !strcmp(w, "dup")) {
      int s = w[0] == 's', rk = -1, sz = -1;
      if (s) sscanf(rest, "%d %d %d %d", &cm, &nw, &a, &b); else sscanf(rest, "%d %d", &cm, &nw);
      e = s ? laik_tcp_minimpi_comm_split(comm[cm], a, b, &comm[nw]) : laik_tcp_minimpi_comm_dup(comm[cm], &comm[nw]);
      if (!e && (laik_tcp_minimpi_comm_rank(comm[nw], &rk) || laik_tcp_minimpi_comm_size(comm[nw], &sz))) e = 1;
      fprintf(out, "{\"e\":%d,\"r\":%d,\"s\":%d}\n", e != 0, rk, sz);
    }
    else if (!strcmp(w, "name")) { paint(); name(); fprintf(out, "}\n"); }
    else if (!strcmp(w, "sleep")) { sscanf(rest, "%d", &n); for (int64_t t0 = now(); now() - t0 < n * 1000LL;) usleep(500); fprintf(out, "{\"e\":0}\n"); }
    else abort();
    if (e) { char* es = malloc(LAIK_TCP_MINIMPI_MAX_ERROR_STRING); int len = -1; if (!laik_tcp_minimpi_error_string(e, es, &len)) fprintf(stderr, "T%d %s%s", me, line, es); free(es); }
    fflush(out);
  }
  int e = laik_tcp_minimpi_finalize(), init2 = -1;
  (void) !laik_tcp_minimpi_initialized(&init2);
  fprintf(out, "{\"e\":%d,\"i\":%d}\n", e != 0, init2 == 0); fclose(out);
  return 0;
}
