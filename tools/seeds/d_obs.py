def main(body): return "int main(int argc, char** argv) {\n  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* world = laik_world(inst);\n" + body + "\n  return finish(inst);\n}\n"
LOG = r'''
static char* logged(void) { static char b[200000]; fflush(NULL); FILE* f = fopen("log.txt", "r"); if (!f) return ""; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f); return b; }
// words of t, without spaces and line borders and the marks of lines
static char* words(const char* t, int marks) { char* r = malloc(strlen(t) + 1); int n = 0; for (const char* p = t; *p; ) {
    if (marks && (p == t || p[-1] == '\n')) { p += 3; if (!strncmp(p, "ERROR  : ", 9) || !strncmp(p, "       : ", 9)) p += 9; continue; }
    if (*p != ' ' && *p != '\n') r[n++] = *p; p++; } r[n] = 0; return r; }
'''
SEEDS = [
dict(id="p18-buffer-exact", property="P18", np=1, env="export LAIK_LOG=n4 LAIK_LOG_FILE=log.txt",
  edits=[("src/logging.c", "    if (len >= left) {\n", "    if (len > left) {\n")],
  needs="a part of a message which fills the log buffer exactly (1024 characters so far, or a later size)",
  breaks="the last character of the message is lost",
  demo=LOG + main(r'''
  static char t[6000]; int k = 0;
  for (k = 0; k < 1024; k++) t[k] = (k % 9 == 8) ? ' ' : 'a' + k % 26;
  t[1023] = 'Z'; t[1024] = 0;
  laik_log(4, "%s", t);
  EXPECT(!strcmp(words(logged(), 1), words(t, 0)), "message changed");
''')),
dict(id="p18-stale-break", property="P18", np=1, env="export LAIK_LOG=n4 LAIK_LOG_FILE=log.txt",
  edits=[("src/logging.c", "        last_break = 0;\n        while(buf1[off]) {", "        while(buf1[off]) {")],
  needs="a long line of a message where a continuation line starts with a word longer than a line",
  breaks="part of the message appears twice or never ends",
  demo=LOG + main(r'''
  static char t[6000]; int n = 0, k;
  for (k = 0; k < 20; k++) n += sprintf(t + n, "word%02d ", k);
  for (k = 0; k < 130; k++) t[n++] = 'a' + k % 26;
  n += sprintf(t + n, " some more words at the end\nlast");
  alarm(20); laik_log(4, "%s", t); alarm(0);
  EXPECT(!strcmp(words(logged(), 1), words(t, 0)), "message changed");
''')),
dict(id="p18-user-twice", property="P18", np=1,
  edits=[("src/profiling.c", "                    i->profiling->timer_user = 0.0;\n                    i->profiling->user_timer_active = 0;\n", "                    i->profiling->timer_user = 0.0;\n")],
  needs="a user span stopped twice",
  breaks="the reported user time is no time of any span",
  demo=r'''
static double user(const char* f) { char l[300]; double r = -1; FILE* p = fopen(f, "r"); while (fgets(l, 300, p)) { double a, b, c; char g[99]; int x, y; if (sscanf(l, "%[^,], %d, %d, %lf, %lf, %lf", g, &x, &y, &a, &b, &c) == 6) r = c; } fclose(p); return r; }
''' + main(r'''
  laik_enable_profiling_file(inst, "prof.txt");
  laik_profile_user_start(inst); usleep(20000); laik_profile_user_stop(inst);
  laik_profile_user_stop(inst);
  laik_writeout_profile(); laik_close_profiling_file(inst);
  double u = user("prof.txt");
  EXPECT(u > .01 && u < 30, "user time %f", u);
''')),
dict(id="p18-file-stays", property="P18", np=1,
  edits=[("src/profiling.c", "        fclose(i->profiling->profile_file);\n        i->profiling->profile_file = NULL;\n", "        fflush(i->profiling->profile_file);\n")],
  needs="something measured or another file opened after a profile file was closed",
  breaks="records are added to a profile file after its end, and a second file gets none",
  demo=r'''
static int lines(const char* f) { char l[300]; int n = 0; FILE* p = fopen(f, "r"); if (!p) return -1; while (fgets(l, 300, p)) n++; fclose(p); return n; }
''' + main(r'''
  laik_enable_profiling_file(inst, "a.txt"); laik_writeout_profile(); laik_close_profiling_file(inst);
  laik_writeout_profile(); fflush(NULL);
  EXPECT(lines("a.txt") == 4, "%d lines after the end", lines("a.txt"));
  laik_enable_profiling_file(inst, "b.txt"); laik_writeout_profile(); laik_close_profiling_file(inst);
  EXPECT(lines("b.txt") == 4, "%d lines in second file", lines("b.txt"));
''')),
dict(id="p18-range-end", property="P18", np=3, env="export LAIK_LOG=n4:0-1 LAIK_LOG_FILE=log.txt",
  edits=[("src/logging.c", "            (laik_loginst->mylocationid > laik_log_toLID)) {", "            (laik_log_toLID > laik_log_fromLID && laik_loginst->mylocationid >= laik_log_toLID)) {")],
  needs="a filter for a range of processes, looking at its last one",
  breaks="messages of the last process of the range are not shown",
  demo=LOG + main(r'''
  int me = laik_myid(world);
  laik_log(4, "message of process %d", me); fflush(NULL);
  Laik_Space* sp = laik_new_space_1d(inst, 9); Laik_Data* d = laik_new_data(sp, laik_Int32); 
  laik_switchto_new_partitioning(d, world, laik_Master, LAIK_DF_Init, LAIK_RO_Sum);
  laik_switchto_new_partitioning(d, world, laik_All, LAIK_DF_Preserve, LAIK_RO_Sum);
  laik_switchto_new_partitioning(d, world, laik_All, LAIK_DF_Preserve, LAIK_RO_Sum);
  if (me == 0) { char* t = 0; for (int i = 0; i < 50; i++) { t = logged(); if (strstr(t, "process 0") && strstr(t, "process 1")) break; usleep(100000); }
    EXPECT(strstr(t, "process 0") && strstr(t, "process 1"), "message missing"); EXPECT(!strstr(t, "process 2"), "message too much"); }
''')),
]
