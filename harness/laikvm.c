// Script interpreter: executes one scenario (a list of collective steps) with the real
// library in this process and logs what the process observes. The same code runs on the
// simulated transports (sim.cpp) and on the real backends (laikvm_real.c).
//
// Every line is "STEP MASK OP ARGS..."; MASK (hex) names the participating processes by
// initial location id. Coordinates in scripts and logs are relative to the origin
// of their space, so that TLC (32 bit integers) can follow spaces anywhere in 64 bit.
#define _GNU_SOURCE
#include "laik-internal.h"
#include "laik.h"
#include "simproto.h"
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <inttypes.h>
#include <float.h>
#include <limits.h>
#include <unistd.h>

#define MAXOBJ 100
static Laik_Instance* inst;
static Laik_Group* G[MAXOBJ];
static Laik_Space* S[MAXOBJ];
static int64_t ORG[MAXOBJ][3], SC[MAXOBJ];
static int64_t curSC = 1; // distance between neighbouring coordinates in scripts
static Laik_Partitioning* P[MAXOBJ];
static int Ps[MAXOBJ]; // space number of partitioning
static Laik_Data* D[MAXOBJ];
static int Ds[MAXOBJ];
static int LayD[MAXOBJ]; // layout of container: 0 default, 1 own layout with last dimension fastest
static Laik_Transition* T[MAXOBJ];
static Laik_Reservation* R[MAXOBJ];
static Laik_ActionSeq* A[MAXOBJ];
static Laik_KVStore* K[MAXOBJ];
static int wid; // own identity used in value formulas: initial location id

//---------------------------------------------------------------- output
static char* ob; static size_t obn, obc;
static void o_reset(void) { obn = 0; if (!ob) { obc = 4096; ob = malloc(obc); } ob[0] = 0; }
static void o(const char* fmt, ...)
{
  for (;;) {
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(ob + obn, obc - obn, fmt, ap);
    va_end(ap);
    if (obn + k + 1 < obc) { obn += k; return; }
    obc = obc * 2 + k; ob = realloc(ob, obc);
  }
}
static void fatal(const char* m) { fprintf(stderr, "laikvm: %s\n", m); fflush(stderr); _exit(97); }

//---------------------------------------------------------------- tokens
static char* tok[4096]; static int ntok, tpos;
static void split(char* l) { ntok = tpos = 0; for (char* p = strtok(l, " "); p && ntok < 4096; p = strtok(0, " ")) tok[ntok++] = p; }
static char* ts(void) { if (tpos >= ntok) fatal("missing token"); return tok[tpos++]; }
static int64_t ti(void) { return strtoll(ts(), 0, 10); }
static int tmore(void) { return tpos < ntok; }

//---------------------------------------------------------------- helpers
static int64_t rel(int s, int d, int64_t x)
{
  x -= ORG[s][d];
  if (x % SC[s]) return 1700000000;
  x /= SC[s];
  return x > 1000000000 || x < -1000000000 ? 1700000001 : x;
}
static int64_t abso(int s, int d, int64_t x) { return x * SC[s] + ORG[s][d]; }
static void o_range(int s, const Laik_Range* r)
{
  int dims = S[s]->dims;
  for (int d = 0; d < dims; d++)
    o("%s%" PRId64 ",%" PRId64, d ? "," : "", rel(s, d, r->from.i[d]), rel(s, d, r->to.i[d]));
}
static void t_range(int s, Laik_Range* r)
{
  int dims = S[s]->dims;
  Laik_Index f, t;
  laik_index_init(&f, 0, 0, 0); laik_index_init(&t, 0, 0, 0);
  for (int d = 0; d < dims; d++) { f.i[d] = abso(s, d, ti()); t.i[d] = abso(s, d, ti()); }
  laik_range_init(r, S[s], &f, &t);
}
static Laik_Type* typeOf(const char* n)
{
  if (!strcmp(n, "char")) return laik_Char;
  if (!strcmp(n, "int32")) return laik_Int32;
  if (!strcmp(n, "int64")) return laik_Int64;
  if (!strcmp(n, "uchar")) return laik_UChar;
  if (!strcmp(n, "uint32")) return laik_UInt32;
  if (!strcmp(n, "uint64")) return laik_UInt64;
  if (!strcmp(n, "float")) return laik_Float;
  if (!strcmp(n, "double")) return laik_Double;
  fatal("type"); return 0;
}
static Laik_ReductionOperation redOf(const char* n)
{
  static const struct { const char* n; Laik_ReductionOperation o; } t[] = {
    {"none", LAIK_RO_None}, {"sum", LAIK_RO_Sum}, {"prod", LAIK_RO_Prod}, {"min", LAIK_RO_Min},
    {"max", LAIK_RO_Max}, {"and", LAIK_RO_And}, {"or", LAIK_RO_Or}, {"any", LAIK_RO_Any}, {"single", LAIK_RO_Single} };
  for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (!strcmp(n, t[i].n)) return t[i].o;
  if (!strcmp(n, "custom")) return LAIK_RO_Custom;
  fatal("red"); return 0;
}
static Laik_DataFlow flowOf(const char* n)
{
  if (!strcmp(n, "none")) return LAIK_DF_None;
  if (!strcmp(n, "pres")) return LAIK_DF_Preserve;
  if (!strcmp(n, "init")) return LAIK_DF_Init;
  fatal("flow"); return 0;
}
#define CMAX 1000000001LL
#define CODD 1000000003LL
static void setv(Laik_Type* t, char* p, int64_t v)
{
  if (v == CMAX || v == -CMAX) { // largest and smallest value of the type
    int mx = v > 0;
    if (t == laik_Char) *(signed char*) p = mx ? SCHAR_MAX : SCHAR_MIN;
    else if (t == laik_UChar) *(unsigned char*) p = mx ? UCHAR_MAX : 0;
    else if (t == laik_Int32) { int32_t x = mx ? INT32_MAX : INT32_MIN; memcpy(p, &x, 4); }
    else if (t == laik_UInt32) { uint32_t x = mx ? UINT32_MAX : 0; memcpy(p, &x, 4); }
    else if (t == laik_Int64) { int64_t x = mx ? INT64_MAX : INT64_MIN; memcpy(p, &x, 8); }
    else if (t == laik_UInt64) { uint64_t x = mx ? UINT64_MAX : 0; memcpy(p, &x, 8); }
    else if (t == laik_Float) { float x = mx ? FLT_MAX : -FLT_MAX; memcpy(p, &x, 4); }
    else if (t == laik_Double) { double x = mx ? DBL_MAX : -DBL_MAX; memcpy(p, &x, 8); }
    else memset(p, mx ? 0x7f : 0, t->size);
    return;
  }
  if (t == laik_Char) *(signed char*) p = v;
  else if (t == laik_UChar) *(unsigned char*) p = v;
  else if (t == laik_Int32) { int32_t x = v; memcpy(p, &x, 4); }
  else if (t == laik_UInt32) { uint32_t x = v; memcpy(p, &x, 4); }
  else if (t == laik_Int64) { int64_t x = v; memcpy(p, &x, 8); }
  else if (t == laik_UInt64) { uint64_t x = v; memcpy(p, &x, 8); }
  else if (t == laik_Float) { float x = v; memcpy(p, &x, 4); }
  else if (t == laik_Double) { double x = v; memcpy(p, &x, 8); }
  else memset(p, (int) (v & 0x7f), t->size);
}
static int64_t code64(int64_t v, int64_t lo, int64_t hi)
{
  if (v > -1000000000LL && v < 1000000000LL) return v;
  if (v == hi) return CMAX;
  if (v == lo) return -CMAX;
  return CODD;
}
static int64_t codeF(double v, double mx)
{
  if (v == mx || v > 1.7e308) return CMAX;
  if (v == -mx || v < -1.7e308) return -CMAX;
  if (v > -1e9 && v < 1e9 && v == (double)(int64_t) v) return (int64_t) v;
  return CODD;
}
static int64_t getv(Laik_Type* t, const char* p)
{
  if (t == laik_Char) return *(signed char*) p;
  if (t == laik_UChar) return *(unsigned char*) p;
  if (t == laik_Int32) { int32_t x; memcpy(&x, p, 4); return code64(x, INT32_MIN, INT32_MAX); }
  if (t == laik_UInt32) { uint32_t x; memcpy(&x, p, 4); return code64(x, -1, UINT32_MAX); }
  if (t == laik_Int64) { int64_t x; memcpy(&x, p, 8); return code64(x, INT64_MIN, INT64_MAX); }
  if (t == laik_UInt64) { uint64_t x; memcpy(&x, p, 8); return x == UINT64_MAX ? CMAX : x < 1000000000ULL ? (int64_t) x : CODD; }
  if (t == laik_Float) { float x; memcpy(&x, p, 4); return codeF(x, FLT_MAX); }
  if (t == laik_Double) { double x; memcpy(&x, p, 8); return codeF(x, DBL_MAX); }
  for (int i = 1; i < t->size; i++) if (p[i] != p[0]) return CODD;
  return p[0];
}
static int64_t lin(int64_t* i) { return i[0] + 11 * i[1] + 101 * i[2]; }
static int64_t formula(int mode, int64_t seed, int64_t w, int m, int64_t l)
{
  if (mode == 1 || mode == 3) { w = 0; m = 0; }
  int64_t h = seed * 7 + w * 13 + m * 5 + (l + 5000) * 3;
  switch (mode) {
  case 0: case 1: return h % 50 + 1;
  case 2: case 3: return h % 2 + 1;
  case 4: return (h * 5 + w * 3 + l) % 16;   // bit patterns
  case 5: return h % 41 - 20;                // mixed signs
  case 6: return h % 9;
  case 7: return h % 4 == 0 ? CMAX : h % 4 == 1 ? -CMAX : h % 9; // with extreme values
  }
  return 0;
}
// address of element idx (absolute) in mapping m of container d
static char* elem(Laik_Data* d, int m, Laik_Index* i)
{
  int dims = d->space->dims;
  int64_t es = d->elemsize;
  void* base; uint64_t c, xs, ys, zs, yst, zst;
  Laik_Mapping* mp;
  for (int k = 0; k < MAXOBJ; k++) if (D[k] == d && LayD[k]) { char* a = laik_get_map_addr(d, m, i); if (!a) fatal("no mapping"); return a; }
  if (dims == 1) { mp = laik_get_map_1d(d, m, &base, &c);
    if (!mp) fatal("no mapping");
    return (char*) base + (i->i[0] - mp->requiredRange.from.i[0]) * es; }
  if (dims == 2) { mp = laik_get_map_2d(d, m, &base, &ys, &yst, &xs);
    if (!mp) fatal("no mapping");
    return (char*) base + ((i->i[0] - mp->requiredRange.from.i[0]) + (i->i[1] - mp->requiredRange.from.i[1]) * (int64_t) yst) * es; }
  mp = laik_get_map_3d(d, m, &base, &zs, &zst, &ys, &yst, &xs);
  if (!mp) fatal("no mapping");
  return (char*) base + ((i->i[0] - mp->requiredRange.from.i[0]) + (i->i[1] - mp->requiredRange.from.i[1]) * (int64_t) yst
                         + (i->i[2] - mp->requiredRange.from.i[2]) * (int64_t) zst) * es;
}

//---------------------------------------------------------------- partitioners
typedef struct { int task, tag; Laik_Range r; } LEnt;
typedef struct { int n, single; LEnt* e; } LList;
static const char* curop;
static void runList(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp)
{
  if (curop[0] == 's' && strcmp(curop, "swn")) sim_clk += 3;
  LList* l = (LList*) laik_partitioner_data(pp->partitioner);
  for (int i = 0; i < l->n; i++) {
    if (l->single) laik_append_index_1d(rr, l->e[i].task, l->e[i].r.from.i[0]);
    else laik_append_range(rr, l->e[i].task, &(l->e[i].r), l->e[i].tag, 0);
  }
}
// a derived partitioner: same ranges as the base, owner moved by k positions
static void runRotate(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp)
{
  int k = (int) (intptr_t) laik_partitioner_data(pp->partitioner);
  Laik_RangeList* l = laik_partitioning_allranges(pp->other);
  int n = laik_size(pp->group);
  for (int i = 0; i < laik_rangelist_rangecount(l); i++) {
    Laik_TaskRange* tr = laik_rangelist_taskrange(l, i);
    laik_append_range(rr, (laik_taskrange_get_task(tr) + k) % n, laik_taskrange_get_range(tr), laik_taskrange_get_tag(tr), 0);
  }
}
typedef struct { int s, d; } WRef; // space and dimension index weights refer to
static const void* wref(int s, int d) { WRef* r = malloc(sizeof *r); r->s = s; r->d = d; return r; }
static double iw1(Laik_Index* i, const void* d) { const WRef* x = d; int64_t r = i->i[x->d] - ORG[x->s][x->d]; return 1.0 + (double) (((r % 3) + 3) % 3); }
static double iw2(Laik_Index* i, const void* d) { const WRef* x = d; int64_t r = i->i[x->d] - ORG[x->s][x->d]; return (((r % 4) + 4) % 4) == 0 ? 4.0 : 1.0; }
static double iw3(Laik_Index* i, const void* d) { const WRef* x = d; int64_t r = i->i[x->d] - ORG[x->s][x->d]; return (r & 1) ? 0.0 : 1.0; }
static double tw1(int r, const void* d) { (void) d; return 1.0 + r; }
static double tw2(int r, const void* d) { (void) d; return (r & 1) ? 3.0 : 1.0; }
static double tw3(int r, const void* d) { (void) d; return (r == 1) ? 0.0 : 1.0; }
static Laik_GetIdxWeight_t IW[] = {0, iw1, iw2, iw3};
static Laik_GetTaskWeight_t TW[] = {0, tw1, tw2, tw3};

static Laik_Partitioner* mkPartitioner(int s)
{
  char* k = ts();
  if (!strcmp(k, "all")) return laik_All;
  if (!strcmp(k, "all2")) return laik_new_all_partitioner();
  if (!strcmp(k, "master")) return laik_Master;
  if (!strcmp(k, "master2")) return laik_new_master_partitioner();
  if (!strcmp(k, "copy")) { int f = ti(); int t = ti(); return laik_new_copy_partitioner(f, t); }
  if (!strcmp(k, "halo")) return laik_new_halo_partitioner(ti());
  if (!strcmp(k, "chalo")) return laik_new_cornerhalo_partitioner(ti());
  if (!strcmp(k, "bisect")) return laik_new_bisection_partitioner();
  if (!strcmp(k, "grid")) { int x = ti(), y = ti(), z = ti(); return laik_new_grid_partitioner(x, y, z); }
  if (!strcmp(k, "block")) { int d = ti(), c = ti(), i = ti(), t = ti(); return laik_new_block_partitioner(d, c, IW[i], TW[t], wref(s, d)); }
  if (!strcmp(k, "block1")) return laik_new_block_partitioner1();
  if (!strcmp(k, "blocki")) return laik_new_block_partitioner_iw1(IW[ti()], wref(s, 0));
  if (!strcmp(k, "blockt")) return laik_new_block_partitioner_tw1(TW[ti()], 0);
  if (!strcmp(k, "reassign")) { int g = ti(), i = ti(); return laik_new_reassign_partitioner(G[g], IW[i], wref(s, 0)); }
  if (!strcmp(k, "rotate")) { int r = ti(); return laik_new_partitioner("rotate", runRotate, (void*) (intptr_t) r, 0); }
  if (!strcmp(k, "list")) {
    int flags = ti();
    LList* l = malloc(sizeof *l);
    l->n = ti(); l->single = (flags & LAIK_PF_SingleIndex) != 0; l->e = malloc((l->n + 1) * sizeof(LEnt));
    for (int i = 0; i < l->n; i++) { l->e[i].task = ti(); l->e[i].tag = ti(); t_range(s, &(l->e[i].r)); }
    return laik_new_partitioner("list", runList, l, flags);
  }
  fatal("partitioner kind"); return 0;
}

static void o_list(int s, Laik_RangeList* l)
{
  // [task, tag, mapNo, range...]
  o("[");
  int n = laik_rangelist_rangecount(l);
  for (int i = 0; i < n; i++) {
    Laik_TaskRange* tr = laik_rangelist_taskrange(l, i);
    o("%s[%d,%d,%d,", i ? "," : "", laik_taskrange_get_task(tr), laik_taskrange_get_tag(tr), laik_taskrange_get_mapNo(tr));
    Laik_Range rg = *laik_taskrange_get_range(tr);
    o_range(s, &rg); o("]");
  }
  o("]");
}
// the same list asked for the ranges of each task, in varying order
static unsigned qrand = 1;
static void queryList(Laik_RangeList* l, int tids)
{
  for (int k = 0; k < 2 * tids; k++) {
    int t = (qrand = qrand * 1103515245 + 12345) / 65536 % tids, n = laik_rangelist_rangecount(l), c = 0, mc = 0;
    for (int i = 0; i < n; i++) {
      Laik_TaskRange* tr = laik_rangelist_taskrange(l, i); if (laik_taskrange_get_task(tr) != t) continue;
      Laik_Range r = *laik_taskrange_get_range(tr); int m = laik_taskrange_get_mapNo(tr), j = 0;
      for (int i2 = 0; i2 < i; i2++) { Laik_TaskRange* x = laik_rangelist_taskrange(l, i2); if (laik_taskrange_get_task(x) == t && laik_taskrange_get_mapNo(x) == m) j++; }
      tr = laik_rangelist_tidmaprange(l, t, m, j);
      if (!tr || laik_taskrange_get_task(tr) != t || !laik_range_isEqual(laik_taskrange_get_range(tr), &r)) sim_event("range of mapping of a task");
      tr = laik_rangelist_tidrange(l, t, c);
      if (!tr || laik_taskrange_get_task(tr) != t || !laik_range_isEqual(laik_taskrange_get_range(tr), &r)) sim_event("range of a task");
      c++; if (m + 1 > mc) mc = m + 1;
    }
    if (laik_rangelist_tidrangecount(l, t) != c) sim_event("number of ranges of a task");
    if (laik_rangelist_tidrange(l, t, c) || laik_rangelist_tidmaprange(l, t, mc, 0)) sim_event("range of a task beyond count");
    if (laik_rangelist_tidmapcount(l, t) != mc) sim_event("number of mappings of a task");
  }
}
static void dumpPart(int p)
{
  Laik_Partitioning* x = P[p]; int s = Ps[p];
  int me = laik_myid(laik_partitioning_get_group(x));
  Laik_RangeList* all = laik_partitioning_allranges(x);
  o("{\"has\":%d,\"all\":", all ? 1 : 0);
  if (all) {
    if (laik_rangelist_rangecount(all) < 60) queryList(all, laik_size(laik_partitioning_get_group(x)));
    o_list(s, all);
    int n = laik_partitioning_rangecount(x);
    if (n != laik_rangelist_rangecount(all)) sim_event("range count of partitioning");
    for (int i = 0; i < n; i++) {
      Laik_TaskRange* tr = laik_partitioning_get_taskrange(x, i); int t = laik_taskrange_get_task(tr); Laik_Range r = *laik_taskrange_get_range(tr);
      tr = laik_rangelist_taskrange(all, i); Laik_Range r2 = *laik_taskrange_get_range(tr);
      if (t != laik_taskrange_get_task(tr) || memcmp(&r.from, &r2.from, 8 * S[s]->dims) || memcmp(&r.to, &r2.to, 8 * S[s]->dims)) sim_event("range of partitioning");
    }
  } else o("[]");
  o(",\"rc\":%d,\"mc\":%d,\"my\":[", me < 0 ? 0 : laik_my_rangecount(x), me < 0 ? 0 : laik_my_mapcount(x));
  if (me >= 0) {
    int n = laik_my_rangecount(x);
    for (int i = 0; i < n; i++) {
      Laik_TaskRange* tr = laik_my_range(x, i);
      o("%s[%d,%d,%d,", i ? "," : "", laik_taskrange_get_task(tr), laik_taskrange_get_tag(tr), laik_taskrange_get_mapNo(tr));
      Laik_Range rg = *laik_taskrange_get_range(tr); o_range(s, &rg); o("]");
    }
    if (laik_my_range(x, n) != 0) sim_event("own range beyond count");
    for (int i = 0; i < n; i++) {
      Laik_TaskRange* tr = laik_my_range(x, i); Laik_Range r = *laik_taskrange_get_range(tr);
      int64_t f[3], t[3]; int dims = S[s]->dims;
      for (int d = 0; d < 3; d++) f[d] = t[d] = -77;
      if (dims == 1) laik_my_range_1d(x, i, f, t);
      if (dims == 2) laik_my_range_2d(x, i, f, t, f + 1, t + 1);
      if (dims == 3) laik_my_range_3d(x, i, f, t, f + 1, t + 1, f + 2, t + 2);
      for (int d = 0; d < dims; d++) if (f[d] != r.from.i[d] || t[d] != r.to.i[d]) sim_event("borders of own range");
    }
  }
  o("],\"mr\":[");
  if (me >= 0) {
    int mc = laik_my_mapcount(x);
    for (int m = 0; m < mc; m++) {
      o("%s[", m ? "," : "");
      int c = laik_my_maprangecount(x, m);
      for (int i = 0; i < c; i++) {
        Laik_TaskRange* tr = laik_my_maprange(x, m, i);
        if (!tr) { sim_event("missing range of mapping"); continue; }
        o("%s[", i ? "," : ""); Laik_Range rg = *laik_taskrange_get_range(tr); o_range(s, &rg); o("]");
      }
      o("]");
    }
  }
  o("],\"me\":%d,\"q\":[", me);
  if (all) o("%d,%d,%d", laik_partitioning_isAll(x) ? 1 : 0, laik_partitioning_isSingle(x), laik_partitioning_coversSpace(x) ? 1 : 0);
  o("]}");
}
static int gidx(Laik_Group* g) { if (g) for (int i = 0; i < MAXOBJ; i++) if (G[i] == g) return i; return g ? -2 : -1; }
static void o_ints(const int* a, int n) { o("["); for (int i = 0; i < n; i++) o("%s%d", i ? "," : "", a[i]); o("]"); }
static void o_group(Laik_Group* g)
{
  o("{\"n\":%d,\"me\":%d,\"loc\":[", laik_size(g), laik_myid(g));
  for (int i = 0; i < laik_size(g); i++) o("%s%d", i ? "," : "", laik_group_locationid(g, i));
  // the group itself and its parents (numbers of the groups), translations
  o("],\"id\":%d,\"par\":%d,\"par2\":%d,\"tp\":", gidx(g), gidx(g->parent), gidx(g->parent2));
  if (laik_group_parent(g) != g->parent) sim_event("parent of group");
  o_ints(g->toParent, g->parent ? g->size : 0); o(",\"fp\":"); o_ints(g->fromParent, g->parent ? g->parent->size : 0);
  o(",\"tp2\":"); o_ints(g->toParent2, g->parent2 ? g->size : 0); o(",\"fp2\":"); o_ints(g->fromParent2, g->parent2 ? g->parent2->size : 0);
  o("}");
}
static void o_trans(int s, Laik_Transition* t)
{
  if (!t) { o("{\"nil\":1,\"l\":[],\"i\":[],\"s\":[],\"r\":[],\"x\":[]}"); return; }
  o("{\"nil\":0,\"l\":[");
  for (int i = 0; i < t->localCount; i++) { o("%s[%d,%d,", i ? "," : "", t->local[i].fromMapNo, t->local[i].toMapNo); o_range(s, &t->local[i].range); o("]"); }
  o("],\"i\":[");
  for (int i = 0; i < t->initCount; i++) { o("%s[%d,%d,", i ? "," : "", t->init[i].mapNo, (int) t->init[i].redOp); o_range(s, &t->init[i].range); o("]"); }
  o("],\"s\":[");
  for (int i = 0; i < t->sendCount; i++) { o("%s[%d,%d,", i ? "," : "", t->send[i].mapNo, t->send[i].toTask); o_range(s, &t->send[i].range); o("]"); }
  o("],\"r\":[");
  for (int i = 0; i < t->recvCount; i++) { o("%s[%d,%d,", i ? "," : "", t->recv[i].mapNo, t->recv[i].fromTask); o_range(s, &t->recv[i].range); o("]"); }
  o("],\"x\":[");
  for (int i = 0; i < t->redCount; i++) {
    struct redTOp* x = &t->red[i];
    o("%s{\"in\":[", i ? "," : "");
    int n = laik_trans_groupCount(t, x->inputGroup);
    for (int k = 0; k < n; k++) o("%s%d", k ? "," : "", laik_trans_taskInGroup(t, x->inputGroup, k));
    o("],\"out\":[");
    n = laik_trans_groupCount(t, x->outputGroup);
    for (int k = 0; k < n; k++) o("%s%d", k ? "," : "", laik_trans_taskInGroup(t, x->outputGroup, k));
    o("],\"im\":%d,\"om\":%d,\"op\":%d,\"r\":[", x->myInputMapNo, x->myOutputMapNo, (int) x->redOp);
    o_range(s, &x->range); o("]}");
  }
  o("]}");
}

//---------------------------------------------------------------- allocator with accounting
// all memory containers may use: own allocations (kind 0), memory provided (kind 1)
typedef struct { char* p; size_t n; Laik_Data* d; int dn, alive, kind; } AEnt;
static AEnt* AE; static int AEn;
static struct { int64_t mallocs, frees, mbytes, fbytes, cur, max; } AC[MAXOBJ]; // per container
static int a_new(Laik_Data* d, size_t n, int kind)
{
  char* p = malloc(n + 128);
  memset(p, 0x5C, n + 128);
  AE = realloc(AE, (AEn + 1) * sizeof(AEnt));
  int dn = 0; while (dn < MAXOBJ - 1 && D[dn] != d) dn++;
  AE[AEn] = (AEnt) { .p = p + 64, .n = n, .d = d, .dn = dn, .alive = 1, .kind = kind };
  return AEn++;
}
static void* a_malloc(Laik_Data* d, size_t n)
{
  sim_clk += 5;
  int i = a_new(d, n, 0), c = AE[i].dn;
  AC[c].mallocs++; AC[c].mbytes += n; AC[c].cur += n; if (AC[c].cur > AC[c].max) AC[c].max = AC[c].cur;
  return AE[i].p;
}
static void checkGuards(AEnt* e)
{
  for (int i = 0; i < 64; i++)
    if (e->p[-1 - i] != 0x5C || e->p[e->n + i] != 0x5C) { sim_event("memory next to container memory overwritten"); memset(e->p - 64, 0x5C, 64); memset(e->p + e->n, 0x5C, 64); return; }
}
static void a_check(void) // nothing around, and nothing in returned memory, is written
{
  for (int i = 0; i < AEn; i++) {
    checkGuards(&AE[i]);
    if (!AE[i].alive) for (size_t k = 0; k < AE[i].n; k++) if (AE[i].p[k] != 0x5D) { sim_event("returned container memory written"); memset(AE[i].p, 0x5D, AE[i].n); break; }
  }
}
static void a_free(Laik_Data* d, void* p)
{
  for (int i = AEn - 1; i >= 0; i--)
    if (AE[i].p == p) {
      if (AE[i].kind) { sim_event("provided memory freed"); return; }
      if (!AE[i].alive) { sim_event("container memory freed twice"); return; }
      if (AE[i].d != d) sim_event("container memory freed for another container");
      checkGuards(&AE[i]);
      int c = AE[i].dn;
      AE[i].alive = 0; AC[c].frees++; AC[c].fbytes += AE[i].n; AC[c].cur -= AE[i].n;
      memset(AE[i].p, 0x5D, AE[i].n); // not handed back to malloc: late accesses show up
      return;
    }
  sim_event("unknown container memory freed");
}
static int a_find(char* p, size_t n) // alive allocation containing [p,p+n[
{
  for (int i = 0; i < AEn; i++)
    if (AE[i].alive && p >= AE[i].p && p + n <= AE[i].p + AE[i].n) return i;
  return -1;
}

static int64_t sizeOf(int s, uint64_t z) // size in units of the scale
{
  for (int d = 0; d < S[s]->dims; d++) { if (z % SC[s]) return -2; z /= SC[s]; }
  return z > 2000000000 ? -3 : (int64_t) z;
}
static void changeSpace(int s, int64_t* f, int64_t* t)
{
  int dims = S[s]->dims;
  if (dims == 1) laik_change_space_1d(S[s], f[0], t[0]);
  if (dims == 2) laik_change_space_2d(S[s], f[0], t[0], f[1], t[1]);
  if (dims == 3) laik_change_space_3d(S[s], f[0], t[0], f[1], t[1], f[2], t[2]);
}
static void o_space(int s)
{
  o("[%" PRId64 ",%d,[", sizeOf(s, laik_space_size(S[s])), laik_space_getdimensions(S[s])); o_range(s, laik_space_asrange(S[s])); o("]]");
}

#include "laikvm_ext.h"

//---------------------------------------------------------------- main loop
static void doStep(int step, const char* op)
{
  o_reset();
  if (!strcmp(op, "grp")) {
    int g = ti(); char* k = ts();
    if (!strcmp(k, "world")) G[g] = laik_world(inst);
    else if (!strcmp(k, "clone")) G[g] = laik_clone_group(G[ti()]);
    else if (!strcmp(k, "shrink")) { int h = ti(); int n = ti(); int l[64]; for (int i = 0; i < n; i++) l[i] = ti(); G[g] = laik_new_shrinked_group(G[h], n, l); }
    else if (!strcmp(k, "union")) { int a = ti(); int b = ti(); G[g] = laik_new_union_group(G[a], G[b]); }
    o_group(G[g]);
  }
  else if (!strcmp(op, "space")) {
    int s = ti(); int dims = ti();
    for (int d = 0; d < 3; d++) ORG[s][d] = ti();
    SC[s] = curSC;
    int64_t f[3] = {0,0,0}, t[3] = {1,1,1}; int zero = 1;
    for (int d = 0; d < dims; d++) { f[d] = abso(s, d, ti()); t[d] = abso(s, d, ti()); if (f[d]) zero = 0; }
    if (dims == 1) S[s] = laik_new_space_1d(inst, zero ? t[0] : 1);
    if (dims == 2) S[s] = laik_new_space_2d(inst, zero ? t[0] : 1, zero ? t[1] : 1);
    if (dims == 3) S[s] = laik_new_space_3d(inst, zero ? t[0] : 1, zero ? t[1] : 1, zero ? t[2] : 1);
    if (!zero) changeSpace(s, f, t);
    o_space(s);
  }
  else if (!strcmp(op, "part")) {
    int p = ti(), s = ti(), g = ti(), ot = ti(); char* mode = ts();
    Laik_Partitioner* pr = mkPartitioner(s);
    Ps[p] = s;
    if (!strcmp(mode, "full")) P[p] = laik_new_partitioning(pr, G[g], S[s], ot < 0 ? 0 : P[ot]);
    else {
      P[p] = laik_new_empty_partitioning(G[g], S[s], pr, ot < 0 ? 0 : P[ot]);
      if (!strcmp(mode, "my")) laik_partitioning_store_myranges(P[p]);
    }
    if (strcmp(mode, "lazy")) dumpPart(p); else o("{}");
  }
  else if (!strcmp(op, "inter")) { // store ranges intersecting own ranges for a pair
    int p = ti(), q = ti();
    laik_partitioning_store_intersectranges(P[p], P[q]);
    laik_partitioning_store_intersectranges(P[q], P[p]);
    o("{\"a\":"); o_list(Ps[p], laik_partitioning_interranges(P[p], P[q]));
    o(",\"b\":"); o_list(Ps[q], laik_partitioning_interranges(P[q], P[p])); o("}");
  }
  else if (!strcmp(op, "dp")) dumpPart(ti());
  else if (!strcmp(op, "mig")) { int p = ti(), g = ti(); laik_partitioning_migrate(P[p], G[g]); dumpPart(p); }
  else if (!strcmp(op, "peq")) { int p = ti(), q = ti(); o("%d", laik_partitioning_isEqual(P[p], P[q]) ? 1 : 0); }
  else if (!strcmp(op, "data")) { int d = ti(), s = ti(); char* t = ts(); D[d] = laik_new_data(S[s], x_type(t)); Ds[d] = s;
    if (tmore()) { char* al = ts(); if (!strcmp(al, "acc")) { Laik_Allocator* a = laik_new_allocator(a_malloc, a_free, 0); laik_set_allocator(D[d], a); } }
    o("1"); }
  else if (!strcmp(op, "sw")) { int d = ti(), p = ti(); char* f = ts(); char* r = ts();
    laik_switchto_partitioning(D[d], p < 0 ? 0 : P[p], flowOf(f), redOf(r)); o("1"); }
  else if (!strcmp(op, "swf")) { int d = ti(); char* f = ts(); char* r = ts(); laik_switchto_flow(D[d], flowOf(f), redOf(r)); o("1"); }
  else if (!strcmp(op, "swn")) { int d = ti(), p = ti(), g = ti(); char* f = ts(); char* r = ts();
    Laik_Partitioner* pr = mkPartitioner(Ds[d]);
    P[p] = laik_switchto_new_partitioning(D[d], G[g], pr, flowOf(f), redOf(r)); Ps[p] = Ds[d]; o("1"); }
  else if (!strcmp(op, "initp")) { int d = ti(), p = ti(); laik_set_initial_partitioning(D[d], P[p]); o("1"); }
  else if (!strcmp(op, "wr")) {
    int d = ti(), mode = ti(); int64_t seed = ti(); int s = Ds[d];
    Laik_Partitioning* p = laik_data_get_partitioning(D[d]);
    int n = p && laik_myid(laik_partitioning_get_group(p)) >= 0 ? laik_my_rangecount(p) : 0;
    for (int i = 0; i < n; i++) {
      Laik_TaskRange* tr = laik_my_range(p, i); Laik_Range r = *laik_taskrange_get_range(tr); int m = laik_taskrange_get_mapNo(tr);
      Laik_Index x; int dims = S[s]->dims; laik_index_init(&x, 0, 0, 0);
      for (x.i[2] = dims > 2 ? r.from.i[2] : 0; x.i[2] < (dims > 2 ? r.to.i[2] : 1); x.i[2]++)
        for (x.i[1] = dims > 1 ? r.from.i[1] : 0; x.i[1] < (dims > 1 ? r.to.i[1] : 1); x.i[1]++)
          for (x.i[0] = r.from.i[0]; x.i[0] < r.to.i[0]; x.i[0]++) {
            int64_t rel[3] = {0, 0, 0}; for (int k = 0; k < dims; k++) rel[k] = x.i[k] - ORG[s][k];
            x_setv(D[d]->type, elem(D[d], m, &x), formula(mode, seed, wid, m, lin(rel)));
          }
    }
    o("1");
  }
  else if (!strcmp(op, "rd")) {
    int d = ti(); int s = Ds[d];
    Laik_Partitioning* p = laik_data_get_partitioning(D[d]);
    o("[");
    if (p && laik_myid(laik_partitioning_get_group(p)) >= 0) {
      int n = laik_my_rangecount(p);
      for (int i = 0; i < n; i++) {
        Laik_TaskRange* tr = laik_my_range(p, i); Laik_Range r = *laik_taskrange_get_range(tr); int m = laik_taskrange_get_mapNo(tr);
        Laik_Index x; int dims = S[s]->dims; laik_index_init(&x, 0, 0, 0);
        o("%s[%d,[", i ? "," : "", m); o_range(s, &r); o("],[");
        int first = 1;
        for (x.i[2] = dims > 2 ? r.from.i[2] : 0; x.i[2] < (dims > 2 ? r.to.i[2] : 1); x.i[2]++)
          for (x.i[1] = dims > 1 ? r.from.i[1] : 0; x.i[1] < (dims > 1 ? r.to.i[1] : 1); x.i[1]++)
            for (x.i[0] = r.from.i[0]; x.i[0] < r.to.i[0]; x.i[0]++) {
              o("%s%" PRId64, first ? "" : ",", x_getv(D[d]->type, elem(D[d], m, &x))); first = 0;
            }
        o("]]");
      }
    }
    o("]");
  }
  else if (!strcmp(op, "tr")) { int t = ti(), s = ti(), p = ti(), q = ti(); char* f = ts(); char* r = ts();
    T[t] = laik_calc_transition(S[s], p < 0 ? 0 : P[p], q < 0 ? 0 : P[q], flowOf(f), redOf(r)); o_trans(s, T[t]); }
  else if (!strcmp(op, "ftr")) { int t = ti(); laik_free_transition(T[t]); T[t] = 0; o("1"); }
  else if (!strcmp(op, "xt")) { int d = ti(), t = ti(); laik_exec_transition(D[d], T[t]); o("1"); }
  else if (!strcmp(op, "res")) { int r = ti(), d = ti(), n = ti(); R[r] = laik_reservation_new(D[d]); for (int i = 0; i < n; i++) laik_reservation_add(R[r], P[ti()]); laik_reservation_alloc(R[r]); o("1"); }
  else if (!strcmp(op, "ures")) { int d = ti(), r = ti(); if (r < 0) D[d]->activeReservation = 0; else laik_data_use_reservation(D[d], R[r]); o("1"); }
  else if (!strcmp(op, "fres")) { laik_reservation_free(R[ti()]); o("1"); }
  else if (!strcmp(op, "ca")) { int a = ti(), d = ti(), t = ti(), r1 = ti(), r2 = ti(); A[a] = laik_calc_actions(D[d], T[t], r1 < 0 ? 0 : R[r1], r2 < 0 ? 0 : R[r2]); o("%d", A[a] ? 1 : 0); }
  else if (!strcmp(op, "xa")) { int a = ti(); laik_exec_actions(A[a]); o("1"); }
  else if (!strcmp(op, "fa")) { int a = ti(); laik_aseq_free(A[a]); A[a] = 0; o("1"); }
  else if (!strcmp(op, "fp")) { int p = ti(); laik_free_partitioning(P[p]); P[p] = 0; o("1"); }
  else if (!strcmp(op, "fd")) { int d = ti(); laik_free(D[d]); D[d] = 0; o("1"); }
  else if (!strcmp(op, "fin")) { a_check(); laik_finalize(inst); o("1"); }
  else if (!x_step(op)) { fprintf(stderr, "laikvm: unknown op %s\n", op); _exit(97); }
  sim_log(step, ob);
}

int laikvm_main(int rank, int n, int nlines, const char** lines)
{
  (void) n;
  int argc = 1; char* av[] = {"laikvm", 0}; char** argv = av;
  if (x_nolaik(rank, nlines, lines)) { inst = x_inst; wid = rank; }
  else {
    ob_env();
    inst = laik_init(&argc, &argv);
    wid = laik_mylocationid(inst);
    sim_id = wid;
  }
  // a process which joined later starts with the resize it was let in
  int joined = inst != x_inst && laik_epoch(inst) > 0, outside = joined, lastrsz = 0;
  for (int i = 0; i < nlines; i++) {
    char* l = strdup(lines[i]);
    split(l);
    if (ntok == 0) { free(l); continue; }
    int step = ti();
    unsigned long mask = strtoul(ts(), 0, 16);
    if (!(mask & (1ul << wid))) { free(l); continue; }
    sim_step = step;
    char* op = ts();
    int al = !strncmp(op, "al:", 3), jn = !strncmp(op, "jn:", 3);
    if (al || jn) op += 3;
    if (!strcmp(op, "rsz")) {
      int g = ti(), old = ti(), phase = ti();
      if (outside && laik_phase(inst) != phase) { free(l); continue; }
      x_resize(step, outside, g, old, phase);
      lastrsz = outside; outside = 0;
      free(l); continue;
    }
    if (outside ? !al : jn && !lastrsz) { free(l); continue; }
    if (!strcmp(op, "lv")) {
      int g = ti();
      if (laik_myid(G[g]) < 0) { a_check(); laik_finalize(inst); return 0; }
      free(l); continue;
    }
    int64_t c0 = sim_clk, b0 = sim_back; curop = op;
    doStep(step, op);
    if (measured(op)) { hT += sim_clk - c0; hB += sim_back - b0; }
    free(l);
  }
  return 0;
}
