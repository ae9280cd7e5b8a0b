// helpers of the demonstrations for the mini-MPI: n processes connected by abstract UNIX sockets
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include "backends/tcp/minimpi.h"
static int bad = 0;
#define EXPECT(c, ...) do { if (!(c)) { bad = 1; fprintf(stderr, "demo: " __VA_ARGS__); fprintf(stderr, " (line %d)\n", __LINE__); } } while (0)
#define OK(call) do { int e_ = call; EXPECT(e_ == 0, "failed: " #call); } while (0)
#define WORLD LAIK_TCP_MINIMPI_COMM_WORLD
#define I32 LAIK_TCP_MINIMPI_INT32
#define U8 LAIK_TCP_MINIMPI_UINT8
static inline int sendn(int to, int tag, const void* b, int n) { return laik_tcp_minimpi_send(b, n, U8, to, tag, WORLD); }
static inline int recvn(int from, int tag, void* b, int n) { Laik_Tcp_MiniMpiStatus s; int e = laik_tcp_minimpi_recv(b, n, U8, from, tag, WORLD, &s); return e ? e : (int) s != n; }
static inline void ms(int n) { struct timespec t = {n / 1000, n % 1000 * 1000000L}; nanosleep(&t, 0); }
static int mini(int n, const char* conf, void (*prog)(int rank, int n), int seconds)
{
  FILE* f = fopen("mini.conf", "w"); fprintf(f, "[addresses]\n");
  for (int i = 0; i < n; i++) fprintf(f, "r%d = laikdemo%d-%d\n", i, (int) getpid(), i);
  fprintf(f, "[general]\nsend_attempts = 20\nreceive_attempts = 30\n%s", conf); fclose(f);
  setenv("LAIK_TCP_CONFIG", "mini.conf", 1);
  pid_t pid[16]; int rc = 0, left = n;
  for (int i = 0; i < n; i++)
    if (!(pid[i] = fork())) {
      int r; OK(laik_tcp_minimpi_init(0, 0)); OK(laik_tcp_minimpi_comm_rank(WORLD, &r));
      prog(r, n);
      if (!bad) OK(laik_tcp_minimpi_finalize());
      _exit(bad);
    }
  for (int t = 0; left && t < seconds * 100; t++) {
    int st; pid_t p;
    while (left && (p = waitpid(-1, &st, WNOHANG)) > 0) {
      left--; for (int i = 0; i < n; i++) if (pid[i] == p) pid[i] = 0;
      if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 1;
    }
    if (rc) break;
    ms(10);
  }
  if (left && !rc) { fprintf(stderr, "demo: not finished\n"); rc = 1; }
  for (int i = 0; i < n; i++) if (pid[i]) kill(pid[i], SIGKILL);
  return rc;
}
