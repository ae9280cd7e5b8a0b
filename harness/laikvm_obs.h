// observing a program: log output, profiling, iterations and phases
#include <sys/mman.h>
#include <sys/stat.h>
static int64_t hT, hB; // virtual time in measured calls, and there in communication
static const char* curop = "";
static int ob_logfd = -1; static off_t ob_logpos;
static int ob_err = -1, ob_mem = -1;
static char* ob_slurp(int fd, off_t from, off_t* end)
{
  struct stat st; fstat(fd, &st);
  size_t n = st.st_size > from ? st.st_size - from : 0; char* b = malloc(n + 1);
  size_t k = 0; while (k < n) { ssize_t r = pread(fd, b + k, n - k, from + k); if (r <= 0) break; k += r; }
  b[k] = 0; if (end) *end = from + k;
  return b;
}
static void ob_begin(void)
{
  fflush(stdout); fflush(stderr);
  if (ob_logfd >= 0) { struct stat st; fstat(ob_logfd, &st); ob_logpos = st.st_size; return; }
  ob_mem = memfd_create("log", 0); ob_err = dup(2); dup2(ob_mem, 2);
}
static char* ob_end(void)
{
  fflush(stdout); fflush(stderr);
  if (ob_logfd >= 0) return ob_slurp(ob_logfd, ob_logpos, 0);
  dup2(ob_err, 2); close(ob_err);
  char* b = ob_slurp(ob_mem, 0, 0); close(ob_mem); return b;
}
static void o_lines(char* b)
{
  o("["); int first = 1;
  while (*b) {
    char* e = strchr(b, '\n'); int full = e != 0; if (!e) e = b + strlen(b);
    char c = *e; *e = 0; o("%s", first ? "" : ","); first = 0;
    o("\""); for (char* p = b; *p; p++) o("%02x", (unsigned char) *p); o("\"");
    (void) full; if (!c) break; b = e + 1;
  }
  o("]");
}
// environment: a log file is a memory file of this process
static void ob_env(void)
{
  char* f = getenv("LAIK_LOG_FILE");
  if (!f || strcmp(f, "@")) return;
  ob_logfd = memfd_create("logfile", 0); char n[60]; sprintf(n, "/proc/self/fd/%d", ob_logfd); setenv("LAIK_LOG_FILE", n, 1);
}
static int measured(const char* op)
{
  static const char* m[] = { "sw", "swf", "swn", "xt", "xa", "ksync", "spsync", "locsync", 0 };
  for (int i = 0; m[i]; i++) if (!strcmp(op, m[i])) return 1;
  return 0;
}
static int ob_pf[16]; static int ob_pfn;
static const char* ob_pn[16]; static int ob_pd[16];
static int x_obs(const char* op)
{
  if (!strcmp(op, "log")) {
    int l = ti(), mode = ti(), n = ti(); char* s[64]; for (int i = 0; i < n; i++) s[i] = t_hex(0);
    int64_t c = sim_clk; ob_begin();
    if (mode == 0) laik_log(l, "%s", s[0]);
    else if (laik_log_begin(l) || mode == 3) {
      for (int i = 0; i < n - (mode == 2); i++) laik_log_append("%s", s[i]);
      if (mode == 2) laik_log_flush("%s", s[n - 1]); else laik_log_flush(0);
    }
    char* b = ob_end(); o("{\"c\":%" PRId64 ",\"l\":", c); o_lines(b); o("}"); free(b);
    for (int i = 0; i < n; i++) { memset(s[i], 0x77, strlen(s[i])); free(s[i]); }
    return 1;
  }
  if (!strcmp(op, "lset")) { laik_set_loglevel(ti()); o("1"); return 1; }
  if (!strcmp(op, "lsh")) { o("["); for (int l = 1; l <= 5; l++) o("%s%d", l > 1 ? "," : "", laik_log_shown(l) ? 1 : 0); o("]"); return 1; }
  if (!strcmp(op, "its")) { laik_set_iteration(inst, ti()); o("1"); return 1; }
  if (!strcmp(op, "itr")) { laik_iter_reset(inst); o("1"); return 1; }
  if (!strcmp(op, "phs")) { int p = ti(), k = ti(); static char* nm[16]; if (!nm[k]) { nm[k] = malloc(20); sprintf(nm[k], "phase%d", k); }
    laik_set_phase(inst, p, nm[k], &ob_pd[k]); o("1"); return 1; }
  if (!strcmp(op, "itg")) { int p = -99; const char* n = 0; void* d = 0; laik_get_phase(inst, &p, &n, &d); int k = -1;
    if (n) sscanf(n, "phase%d", &k); o("[%d,%d,%d,%d]", laik_get_iteration(inst), p, k, d ? (int) ((int*) d - ob_pd) : -1); return 1; }
  if (!strcmp(op, "tick")) { sim_clk += ti(); o("1"); return 1; }
  if (!strcmp(op, "pen")) { laik_enable_profiling(ti() ? inst : 0); o("[%" PRId64 ",%" PRId64 "]", hT, hB); return 1; }
  if (!strcmp(op, "pfile")) { int k = ti(); (void) k; char n[60]; ob_pf[ob_pfn] = memfd_create("prof", 0); sprintf(n, "/proc/self/fd/%d", ob_pf[ob_pfn++]);
    laik_enable_profiling_file(inst, n); o("[%" PRId64 ",%" PRId64 "]", hT, hB); return 1; }
  if (!strcmp(op, "prs")) { laik_reset_profiling(inst); o("[%" PRId64 ",%" PRId64 "]", hT, hB); return 1; }
  if (!strcmp(op, "pus")) { if (ti()) laik_profile_user_start(inst); else laik_profile_user_stop(inst); o("%" PRId64, sim_clk); return 1; }
  if (!strcmp(op, "pq")) { double t = laik_get_total_time(), b = laik_get_backend_time();
    o("[%" PRId64 ",%" PRId64 ",%" PRId64 ",%" PRId64 "]", (int64_t) (t * 1e6 + .5), (int64_t) (b * 1e6 + .5), hT, hB); return 1; }
  if (!strcmp(op, "pwr")) { laik_writeout_profile(); o("[%" PRId64 ",%" PRId64 "]", hT, hB); return 1; }
  if (!strcmp(op, "ppr")) { char* t = t_hex(0); laik_profile_printf("%s %d\n", t, 42); free(t); o("1"); return 1; }
  if (!strcmp(op, "pcl")) { laik_close_profiling_file(inst); o("1"); return 1; }
  if (!strcmp(op, "pfget")) { int k = ti(); char* b = ob_slurp(ob_pf[k], 0, 0); o_lines(b); free(b); return 1; }
  return 0;
}
