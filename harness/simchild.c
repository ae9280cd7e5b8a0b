// Child side plumbing: talk to the coordinator.
#define _GNU_SOURCE
#include "simproto.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
#include <sys/time.h>

int sim_fd = -1, sim_rank = 0, sim_step = 0, sim_id = -1;
int64_t sim_cnt[6]; // messages sent, bytes, messages received, bytes, reductions, bytes

// raw system calls: read/write may be replaced by simulated sockets
static void wr(const void* p, size_t n)
{
  const char* c = p;
  while (n) {
    ssize_t r = syscall(SYS_write, sim_fd, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(99);
    c += r; n -= r;
  }
}
static void rd(void* p, size_t n)
{
  char* c = p;
  while (n) {
    ssize_t r = syscall(SYS_read, sim_fd, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(98);
    c += r; n -= r;
  }
}
void sim_write(const SimMsg* m, const void* payload)
{
  wr(m, sizeof(*m));
  if (m->len) wr(payload, m->len);
}
void* sim_read(SimMsg* m)
{
  rd(m, sizeof(*m));
  if (!m->len) return 0;
  char* p = malloc(m->len + 1);
  rd(p, m->len);
  p[m->len] = 0;
  return p;
}
int64_t sim_clk, sim_back;
void* sim_call(SimMsg* m, const void* payload)
{
  if ((m->type >= SP_SEND && m->type <= SP_TEST) || m->type == SP_PROBE || m->type == SP_SOCK || (m->type == SP_COLL && m->a[0] < CK_DUP)) { sim_clk += 11; sim_back += 11; }
  m->step = sim_step;
  sim_write(m, payload);
  return sim_read(m);
}
static FILE* logfile = 0;
void sim_log(int step, const char* json)
{
  if (sim_fd >= 0) {
    SimMsg m = { .type = SP_LOG, .step = step, .len = (int64_t) strlen(json) };
    m.a[0] = step; m.a[1] = sim_id;
    sim_write(&m, json);
    return;
  }
  if (!logfile) {
    char* pre = getenv("VM_OUT");
    char name[600];
    snprintf(name, sizeof name, "%s.%d", pre ? pre : "/dev/null", (int) getpid());
    logfile = fopen(pre ? name : "/dev/null", "w");
  }
  fprintf(logfile, "%d %s\n", step, json);
  fflush(logfile);
}
void sim_event(const char* fmt, ...)
{
  char buf[500];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (sim_fd >= 0) {
    SimMsg m = { .type = SP_EVENT, .step = sim_step, .len = (int64_t) strlen(buf) };
    m.a[1] = sim_id;
    sim_write(&m, buf);
  }
  else fprintf(stderr, "EVENT %s\n", buf);
}

// virtual time
int __real_gettimeofday(struct timeval* t, void* z);
int __wrap_gettimeofday(struct timeval* t, void* z)
{
  if (sim_fd < 0) return __real_gettimeofday(t, z);
  t->tv_sec = 1000 + sim_clk / 1000000; t->tv_usec = sim_clk % 1000000;
  return 0;
}

// a process ending itself must not run what the coordinator would do at its end
void __real_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { if (sim_fd >= 0) { fflush(stdout); fflush(stderr); _exit(c); } __real_exit(c); }
