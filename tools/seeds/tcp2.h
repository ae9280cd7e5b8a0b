// helpers of the demonstrations for worlds of the TCP2 backend: n processes on this machine
#include "common.h"
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
typedef struct { int port; pid_t pid[32]; volatile int x[64]; } Shared;
static Shared* sh;
static inline void ms(int n) { struct timespec t = {n / 1000, n % 1000 * 1000000L}; while (nanosleep(&t, &t)) ; }
static Laik_Instance* start(void) { int c = 1; static char* v[] = {"demo", 0}; char** vp = v; return laik_init(&c, &vp); }
// sends a command to the master, as an external client
static void ask(const char* fmt, int x)
{
  char b[100]; snprintf(b, sizeof b, fmt, x);
  struct sockaddr_in a = {0}; a.sin_family = AF_INET; a.sin_port = htons(sh->port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  int s = socket(AF_INET, SOCK_STREAM, 0);
  if (connect(s, (struct sockaddr*) &a, sizeof a) == 0 && write(s, b, strlen(b)) > 0) ms(50);
  close(s);
}
static int world(int n, void (*prog)(void), int seconds)
{
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->port = 20000 + getpid() % 10000; char b[20];
  sprintf(b, "%d", sh->port); setenv("LAIK_TCP2_PORT", b, 1); sprintf(b, "%d", n); setenv("LAIK_SIZE", b, 1); setenv("LAIK_BACKEND", "tcp2", 1);
  int rc = 0, left = n;
  for (int i = 0; i < n; i++) { pid_t p = fork(); if (!p) { prog(); fflush(0); _exit(bad); } sh->pid[i] = p; ms(100); }   // the first is the master
  for (int t = 0; left && !rc && t < seconds * 100; t++) {
    int st; pid_t p;
    while (left && (p = waitpid(-1, &st, WNOHANG)) > 0) {
      left--; for (int i = 0; i < n; i++) if (sh->pid[i] == p) sh->pid[i] = 0;
      if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 1;
    }
    ms(10);
  }
  if (left && !rc) { fprintf(stderr, "demo: not finished\n"); rc = 1; }
  for (int i = 0; i < n; i++) if (sh->pid[i]) kill(sh->pid[i], SIGKILL);
  return rc;
}
