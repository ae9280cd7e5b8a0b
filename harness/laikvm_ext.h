// further operations of the interpreter
static Laik_Type* x_type(const char* n) { return typeOf(n); }
static void x_setv(Laik_Type* t, char* p, int64_t v) { setv(t, p, v); }
static int64_t x_getv(Laik_Type* t, const char* p) { return getv(t, p); }
// an instance without communication, for groups: "0 ff dummy N lid.." as first line
static Laik_Instance* x_inst;
static void x_fin(Laik_Instance* i) { (void) i; SimMsg m = { .type = SP_FINALIZE }; sim_call(&m, 0); }
static Laik_Backend x_backend = { .name = "none", .finalize = x_fin };
static int x_nolaik(int rank, int n, const char** l)
{
  if (n < 1 || !strstr(l[0], " dummy ")) return 0;
  char* c = strdup(strstr(l[0], " dummy ") + 7); int k = strtol(c, &c, 10); int lid[64];
  for (int i = 0; i < k; i++) lid[i] = strtol(c, &c, 10);
  x_inst = laik_new_instance(&x_backend, 64, lid[rank], 0, 0, "here", 0);
  Laik_Group* w = laik_create_group(x_inst, k);
  w->size = k; w->myid = rank;
  for (int i = 0; i < k; i++) w->locationid[i] = lid[i];
  x_inst->world = w;
  return 1;
}

static void o_trs(int s, Laik_TaskRange* tr)
{
  if (!tr) { o("[]"); return; }
  o("[%d,%d,%d,", laik_taskrange_get_task(tr), laik_taskrange_get_tag(tr), laik_taskrange_get_mapNo(tr));
  Laik_Range r = *laik_taskrange_get_range(tr); o_range(s, &r); o("]");
}
// key-value stores: keys and values as hex strings
static char KC[MAXOBJ][40000]; static int KCn[MAXOBJ]; // callbacks of the current synchronisation
static char KName[MAXOBJ][40];
static void o_hex(const char* p, size_t n) { for (size_t i = 0; i < n; i++) o("%02x", (unsigned char) p[i]); }
static char* t_hex(size_t* n)
{
  char* t = ts(); if (!strcmp(t, "=")) t = ""; // empty
  size_t l = strlen(t) / 2; char* r = malloc(l + 1); // exact size: too long reads show up
  for (size_t i = 0; i < l; i++) { char b[3] = { t[2*i], t[2*i+1], 0 }; r[i] = strtol(b, 0, 16); }
  r[l] = 0; if (n) *n = l;
  return r;
}
static int kidx(Laik_KVStore* k) { for (int i = 0; i < MAXOBJ; i++) if (K[i] == k) return i; sim_event("callback for unknown store"); return 0; }
static void kcall(Laik_KVStore* k, const char* kind, const char* key, const char* v, size_t n)
{
  int i = kidx(k); if (KCn[i] > 30000) return;
  KCn[i] += sprintf(KC[i] + KCn[i], "%s[\"%s\",\"", KCn[i] ? "," : "", kind);
  for (const char* c = key; *c; c++) KCn[i] += sprintf(KC[i] + KCn[i], "%02x", (unsigned char) *c);
  KCn[i] += sprintf(KC[i] + KCn[i], "\",\"");
  for (size_t j = 0; j < n && j < 3000; j++) KCn[i] += sprintf(KC[i] + KCn[i], "%02x", (unsigned char) v[j]);
  KCn[i] += sprintf(KC[i] + KCn[i], "\"]");
}
static void kcr(Laik_KVStore* k, Laik_KVS_Entry* e) { unsigned int n; char* v = laik_kvs_data(e, &n); kcall(k, "c", laik_kvs_key(e), v, n); }
static void kch(Laik_KVStore* k, Laik_KVS_Entry* e) { unsigned int n; char* v = laik_kvs_data(e, &n); kcall(k, "u", laik_kvs_key(e), v, n); }
static void krm(Laik_KVStore* k, char* key) { kcall(k, "r", key, "", 0); }
static void o_kval(Laik_KVStore* k, char* key)
{
  unsigned int n = 0; char* v = laik_kvs_get(k, key, &n);
  Laik_KVS_Entry* e = laik_kvs_entry(k, key);
  if (!v) { o("\"-\""); if (e && (laik_kvs_size(e) || laik_kvs_data(e, 0))) sim_event("entry without value"); return; }
  if (!e || laik_kvs_size(e) != n || strcmp(laik_kvs_key(e), key)) sim_event("entry looked up");
  o("\""); o_hex(v, n); o("\"");
  char* m = malloc(n); // copy of parts
  for (unsigned int w = 0; w <= n; w += n / 2 + 1) { memset(m, 0, n); unsigned int c = laik_kvs_copy(e, m, w); if (c != w || memcmp(m, v, w)) sim_event("copy of entry"); }
  if (laik_kvs_copy(e, m, n) != n || memcmp(m, v, n)) sim_event("copy of entry");
  free(m);
}
//---------------------------------------------------------------- layouts
// a layout as an application may define it: last dimension fastest, generic pack/unpack/copy
typedef struct { Laik_Layout h; Laik_Range r[]; } RevLayout;
static int rev_mapno(Laik_Layout* l, int n) { (void) l; return n; }
static int rev_section(Laik_Layout* l, Laik_Index* x)
{
  RevLayout* v = (RevLayout*) l;
  for (int i = 0; i < l->map_count; i++) {
    int in = 1; for (int d = 0; d < l->dims; d++) if (x->i[d] < v->r[i].from.i[d] || x->i[d] >= v->r[i].to.i[d]) in = 0;
    if (in) return i;
  }
  return -1;
}
static int64_t rev_offset(Laik_Layout* l, int n, Laik_Index* x)
{
  RevLayout* v = (RevLayout*) l; int64_t off = 0;
  for (int d = 0; d < l->dims; d++) {
    if (x->i[d] < v->r[n].from.i[d] || x->i[d] >= v->r[n].to.i[d]) { sim_event("index outside of its layout section"); return 0; }
    off = off * (v->r[n].to.i[d] - v->r[n].from.i[d]) + (x->i[d] - v->r[n].from.i[d]);
  }
  return off;
}
static Laik_Layout* rev_new(int n, Laik_Range* r)
{
  RevLayout* v = malloc(sizeof *v + n * sizeof *r); uint64_t c = 0;
  for (int i = 0; i < n; i++) { v->r[i] = r[i]; c += laik_range_size(&r[i]); }
  laik_init_layout(&v->h, r->space->dims, n, c, rev_section, rev_mapno, rev_offset, 0, 0, 0, 0, 0);
  return &v->h;
}
static void o_idx(int s, Laik_Index* x) { o("["); for (int d = 0; d < S[s]->dims; d++) o("%s%" PRId64, d ? "," : "", rel(s, d, x->i[d])); o("]"); }
static int nextIdx(Laik_Range* r, Laik_Index* x)
{
  for (int d = 0; d < r->space->dims; d++) { if (++x->i[d] < r->to.i[d]) return 1; x->i[d] = r->from.i[d]; }
  return 0;
}
// number of allocation and offset in it
static void o_addr(char* p, size_t n) { int a = a_find(p, n); o("[%d,%" PRId64 "]", a, a < 0 ? 0 : (int64_t) (p - AE[a].p)); }
static void o_layout(int d)
{
  int s = Ds[d]; Laik_Data* x = D[d]; int es = x->elemsize;
  Laik_Partitioning* p = laik_data_get_partitioning(x);
  o("[");
  if (p && laik_myid(laik_partitioning_get_group(p)) >= 0) {
    int mc = laik_my_mapcount(p);
    if (laik_get_map(x, mc) || laik_get_map(x, -1)) sim_event("mapping beyond count");
    for (int m = 0; m < mc; m++) {
      Laik_Mapping* mp = laik_get_map(x, m);
      if (!mp) { sim_event("missing mapping"); continue; }
      if (mp->mapNo != m || laik_map_get_mapNo(mp) != m) sim_event("number of mapping");
      o("%s{\"m\":%d,\"req\":[", m ? "," : "", m); o_range(s, &mp->requiredRange);
      o("],\"all\":["); o_range(s, &mp->allocatedRange);
      o("],\"ls\":%d,\"mn\":%d,", mp->layoutSection, mp->layout->mapno(mp->layout, mp->layoutSection));
      void* base = 0; uint64_t sz[3] = {0, 0, 0}, st[3] = {1, 0, 0}; int dims = S[s]->dims;
      if (LayD[d] && dims > 1) { base = mp->base; for (int k = 0; k < dims; k++) sz[k] = mp->requiredRange.to.i[k] - mp->requiredRange.from.i[k]; }
      else if (dims == 1) laik_get_map_1d(x, m, &base, &sz[0]);
      else if (dims == 2) laik_get_map_2d(x, m, &base, &sz[1], &st[1], &sz[0]);
      else laik_get_map_3d(x, m, &base, &sz[2], &st[2], &sz[1], &st[1], &sz[0]);
      int a = a_find(mp->start, 1);
      o("\"as\":%" PRId64 ",\"base\":", a < 0 ? 0 : (int64_t) AE[a].n); o_addr(base, es);
      o(",\"sz\":["); for (int k = 0; k < dims; k++) o("%s%" PRId64, k ? "," : "", (int64_t) sz[k]);
      o("],\"st\":["); for (int k = 0; k < dims; k++) o("%s%" PRId64, k ? "," : "", (int64_t) st[k]);
      o("],\"el\":[");
      Laik_Range r = mp->requiredRange; Laik_Index i = r.from; int first = 1;
      do {
        char* q = laik_get_map_addr(x, m, &i);
        if (laik_offset(mp->layout, mp->layoutSection, &i) * es != q - mp->start) sim_event("address of an index");
        int sec = mp->layout->section(mp->layout, &i);
        o("%s[", first ? "" : ","); first = 0; o_idx(s, &i); o(","); o_addr(q, es); o(",%d]", sec);
      } while (nextIdx(&r, &i));
      o("]}");
    }
  }
  o("]");
}
// part of own range k of a container: position and size per dimension chosen by a[]
static Laik_Mapping* ownPart(Laik_Data* x, int k, int* a, Laik_Range* r)
{
  Laik_Partitioning* p = laik_data_get_partitioning(x);
  if (!p || laik_myid(laik_partitioning_get_group(p)) < 0) return 0;
  int n = laik_my_rangecount(p); if (!n) return 0;
  Laik_TaskRange* tr = laik_my_range(p, k % n); *r = *laik_taskrange_get_range(tr);
  for (int d = 0; d < x->space->dims; d++) {
    int64_t z = r->to.i[d] - r->from.i[d], f = a[2*d] % z, l = 1 + a[2*d+1] % (z - f);
    if (a[2*d] >= 90) { f = 0; l = z; }
    r->from.i[d] += f; r->to.i[d] = r->from.i[d] + l;
  }
  return laik_get_map(x, laik_taskrange_get_mapNo(tr));
}
static void t_part(int* k, int* a) { *k = ti(); for (int i = 0; i < 6; i++) a[i] = ti(); }
//---------------------------------------------------------------- memory and statistics
static void o_memory(void)
{
  a_check();
  o("{\"al\":["); int first = 1;
  for (int i = 0; i < AEn; i++) if (AE[i].alive) { o("%s{\"i\":%d,\"d\":%d,\"k\":%d,\"n\":%d}", first ? "" : ",", i, AE[i].dn, AE[i].kind, (int) AE[i].n); first = 0; }
  o("],\"mp\":["); first = 1;
  for (int d = 0; d < MAXOBJ; d++) {
    if (!D[d]) continue;
    Laik_Partitioning* p = laik_data_get_partitioning(D[d]);
    if (!p || laik_myid(laik_partitioning_get_group(p)) < 0) continue;
    int mc = laik_my_mapcount(p);
    for (int m = 0; m < mc; m++) {
      Laik_Mapping* mp = laik_get_map(D[d], m); if (!mp) { sim_event("missing mapping"); continue; }
      o("%s{\"d\":%d,\"m\":%d,\"at\":", first ? "" : ",", d, m); first = 0; o_addr(mp->base, D[d]->elemsize);
      o(",\"st\":"); o_addr(mp->start, 1); o(",\"all\":["); o_range(Ds[d], &mp->allocatedRange); o("]}");
    }
  }
  o("]}");
}
// functions of the types, counting the elements they handle
static int64_t nRed, nIni;
#define CT(n, T) \
  static laik_init_t i_##n; static laik_reduce_t r_##n; \
  static void ci_##n(void* b, int c, Laik_ReductionOperation op) { nIni += c; i_##n(b, c, op); } \
  static void cr_##n(void* o, const void* a, const void* b, int c, Laik_ReductionOperation op) { nRed += c; r_##n(o, a, b, c, op); }
CT(c, Char) CT(uc, UChar) CT(i, Int32) CT(u, UInt32) CT(l, Int64) CT(ul, UInt64) CT(f, Float) CT(d, Double)
#define CW(n, T) { i_##n = laik_##T->init; laik_##T->init = ci_##n; r_##n = laik_##T->reduce; laik_##T->reduce = cr_##n; }
static void countTypes(void)
{ static int done; if (done++) return; CW(c, Char) CW(uc, UChar) CW(i, Int32) CW(u, UInt32) CW(l, Int64) CW(ul, UInt64) CW(f, Float) CW(d, Double) }
static void o_stat(Laik_SwitchStat* s)
{
#define Q(f) (int64_t) s->f
  int64_t v[] = { Q(switches), Q(switches_noactions), Q(mallocCount), Q(freeCount), Q(mallocedBytes), Q(freedBytes), Q(currAllocedBytes), Q(maxAllocedBytes),
    Q(initedBytes), Q(copiedBytes), Q(transitionCount), Q(msgSendCount), Q(msgAsyncSendCount), Q(msgRecvCount), Q(msgAsyncRecvCount), Q(msgReduceCount),
    Q(elemSendCount), Q(elemRecvCount), Q(elemReduceCount), Q(byteSendCount), Q(byteRecvCount), Q(byteReduceCount), Q(initOpCount), Q(reduceOpCount), Q(byteBufCopyCount) };
  o("["); for (unsigned k = 0; k < sizeof v / sizeof *v; k++) o("%s%" PRId64, k ? "," : "", v[k]); o("]");
}
static void o_str(const char* t)
{ if (!t) { o("\"-\""); return; } o("\""); for (; *t; t++) if (*t == '"' || *t == '\\' || (unsigned char) *t < 32 || (unsigned char) *t > 126) o("?%02x", (unsigned char) *t); else o("%c", *t); o("\""); }
// joined: this process starts here
static void x_resize(int step, int joined, int g, int old, int phase)
{
  o_reset();
  if (joined) { G[g] = laik_world(inst); G[old] = laik_group_parent(G[g]); if (!G[old]) sim_event("joined without previous world"); }
  else G[g] = laik_allow_world_resize(inst, phase);
  if (G[g] != laik_world(inst)) sim_event("world is not the one returned by resize");
  o_group(G[g]); obn--;
  o(",\"epoch\":%d,\"phase\":%d,\"lid\":%d}", laik_epoch(inst), laik_phase(inst), laik_mylocationid(inst));
  sim_log(step, ob);
}
// ---- agents
#include "agent.h"
#include <dlfcn.h>
#define MAXAG 40
AGENT(0, ag_i0) AGENT(1, ag_i1) AGENT(2, ag_i2) AGENT(3, ag_i3) AGENT(4, ag_i4) AGENT(5, ag_i5) AGENT(6, ag_i6) AGENT(7, ag_i7) AGENT(8, ag_i8) AGENT(9, ag_i9) AGENT(10, ag_i10) AGENT(11, ag_i11)
static laik_agent_init ag_init[12] = { ag_i0, ag_i1, ag_i2, ag_i3, ag_i4, ag_i5, ag_i6, ag_i7, ag_i8, ag_i9, ag_i10, ag_i11 };
static AgCtl* AG[MAXAG]; static int ag_n; static int ag_lib[MAXAG];
static void* ag_h[16]; static int ag_open[16], ag_close[16]; static void (*ag_simple)(const int); static int (*ag_clear)(void);
void* __real_dlopen(const char* f, int fl); int __real_dlclose(void* h);
static int ag_libno(const char* f) { const char* p = f ? strrchr(f, '/') : 0; int k; if (!p) return -1; if (!strcmp(p, "/agent-simple.so")) return 12; return sscanf(p, "/agent%d.so", &k) == 1 ? k : -1; }
void* __wrap_dlopen(const char* f, int fl) { void* h = __real_dlopen(f, fl); int k = ag_libno(f); if (h && k >= 0) { ag_h[k] = h; ag_open[k]++; } return h; }
int __wrap_dlclose(void* h) { for (int k = 0; k < 16; k++) if (h && ag_h[k] == h) { ag_close[k]++; if (ag_close[k] > ag_open[k]) return -1; } return __real_dlclose(h); }
// libraries still open, libraries closed too often, functions called which must not be
static void o_agents(void)
{
  int op = 0, cl = 0, wr = 0;
  for (int k = 0; k < 16; k++) { if (ag_open[k] > ag_close[k]) op++; if (ag_close[k] > ag_open[k]) cl++; }
  for (int a = 0; a < ag_n; a++) if (AG[a]) wr += AG[a]->wrong;
  o("[%d,%d,%d]", op, cl, wr);
}
static void ag_load(int a, int kind, int lib)
{
  // lib: 0..11 file, 12 agent provided with LAIK, 100.. function
  static char dir[2000]; char path[2100], ptr[40];
  AG[a] = calloc(1, sizeof(AgCtl)); AG[a]->kind = kind; ag_lib[a] = lib; if (a >= ag_n) ag_n = a + 1;
  if (!dir[0]) { ssize_t n = readlink("/proc/self/exe", dir, sizeof(dir) - 1); dir[n < 0 ? 0 : n] = 0; char* p = strrchr(dir, '/'); if (p) *p = 0; }
  sprintf(ptr, "%llx", (unsigned long long) AG[a]);
  char* av[3] = { ptr, "agent argument", 0 };
  int before = ag_open[12];
  if (lib >= 100) laik_ext_load_agent_from_function(inst, ag_init[lib - 100], 2, av);
  else if (lib == 12) { char* sv[3] = { "5", "42", 0 }; sprintf(path, "%s/agent-simple.so", dir); laik_ext_load_agent_from_file(inst, path, 2, sv); }
  else { sprintf(path, "%s/agent%d.so", dir, lib); laik_ext_load_agent_from_file(inst, path, 2, av); }
  if (lib == 12 && ag_open[12] > before) { ag_simple = dlsym(ag_h[12], "sa_set_iter"); ag_clear = dlsym(ag_h[12], "sa_clear"); AG[a]->inits = 1; }
  o("%d", AG[a]->inits);
}
static void ag_query(int max)
{
  node_uid_t* r = malloc((max ? max : 1) * sizeof(node_uid_t)); memset(r, 'x', max * sizeof(node_uid_t));
  int n = 77;
  laik_get_failed(inst, &n, r, max);
  o("{\"n\":%d,\"r\":[", n);
  for (int i = 0; i < n && i < max; i++) { if (i) o(","); r[i].uid[MAX_UID_LENGTH - 1] = 0; o("\""); o_hex(r[i].uid, strlen(r[i].uid)); o("\""); }
  o("],\"left\":[");
  for (int a = 0; a < ag_n; a++) o("%s[%d,%d]", a ? "," : "", a, AG[a] ? AG[a]->n : 0);
  o("]}");
  free(r);
}
#include "laikvm_obs.h"
static int x_step(const char* op)
{
  if (x_obs(op)) return 1;
  if (!strcmp(op, "spawn")) { SimMsg m = { .type = SP_SPAWN }; m.a[0] = ti(); free(sim_call(&m, 0)); o("1"); return 1; }
  if (!strcmp(op, "outside")) { SimMsg m = { .type = SP_OUTSIDE }; m.a[0] = 7777; m.a[1] = ti(); m.a[2] = ti(); size_t n; char* t = t_hex(&n); m.len = n; free(sim_call(&m, t)); free(t); o("1"); return 1; }
  if (!strcmp(op, "agini")) { laik_ext_init(inst); o("1"); return 1; }
  if (!strcmp(op, "agld")) { int a = ti(), k = ti(); ag_load(a, k, ti()); return 1; }
  if (!strcmp(op, "agrep")) { int a = ti(), n = ti(); for (int i = 0; i < n; i++) { char* u = t_hex(0); strncpy(AG[a]->q[AG[a]->n++], u, MAX_UID_LENGTH - 1); free(u); } o("1"); return 1; }
  if (!strcmp(op, "agit")) { int a = ti(), it = ti(); if (it < 0) ag_clear(); else ag_simple(it); (void) a; o("1"); return 1; }
  if (!strcmp(op, "agq")) { ag_query(ti()); return 1; }
  if (!strcmp(op, "agcl")) { laik_ext_cleanup(inst); o_agents(); return 1; }
  if (!strcmp(op, "agfin")) { laik_finalize(inst); o_agents(); return 1; }
  if (!strcmp(op, "nop")) { o("1"); return 1; }
  if (!strcmp(op, "frz")) { laik_finish_world_resize(inst); o("1"); return 1; }
  if (!strcmp(op, "wst")) { o("[%d,%d]", laik_epoch(inst), laik_mylocationid(inst)); return 1; }
  if (!strcmp(op, "locsync")) { laik_sync_location(inst); o_str(laik_mylocation(inst)); return 1; }
  if (!strcmp(op, "locget")) { int g = ti(); o("["); for (int k = 0; k < laik_size(G[g]); k++) { if (k) o(","); o_str(laik_group_location(G[g], k)); } o("]"); return 1; }
  if (!strcmp(op, "spset")) { int s = ti(); char* n = t_hex(0); if (!S[s]->kvs) { laik_set_space_name(S[s], n); memset(n, 0x77, strlen(n)); } laik_spacestore_set(S[s]); o("1"); return 1; }
  if (!strcmp(op, "spget")) { int s = ti(); char* n = t_hex(0); int64_t g[3]; for (int d = 0; d < 3; d++) g[d] = ti();
    Laik_Space* x = laik_spacestore_get(inst, n); memset(n, 0x77, strlen(n)); free(n);
    if (!x) { o("[]"); return 1; }
    if (S[s] && S[s] != x) sim_event("another object for the same published space");
    S[s] = x; for (int d = 0; d < 3; d++) ORG[s][d] = g[d]; SC[s] = 1; o_space(s); return 1; }
  if (!strcmp(op, "spq")) { o_space(ti()); return 1; }
  if (!strcmp(op, "spsync")) { laik_sync_spaces(inst); o("1"); return 1; }
  if (!strcmp(op, "mm")) { o_memory(); return 1; }
  if (!strcmp(op, "prov")) { int d = ti(); int n = ti(); if (n < 0) { laik_data_provide_memory(D[d], 0, 0); o("-1"); }
    else { int i = a_new(D[d], n, 1); laik_data_provide_memory(D[d], AE[i].p, AE[i].n); o("%d", i); } return 1; }
  if (!strcmp(op, "cnt")) { countTypes(); o("1"); return 1; }
  if (!strcmp(op, "sst")) { // statistics of a container, and what really happened
    int d = ti(); o("{\"st\":"); o_stat(D[d]->stat);
    int64_t bb = 0, bn = 0;
    for (int a = 0; a < MAXOBJ; a++) if (A[a] && ((Laik_TransitionContext*) A[a]->context[0])->data == D[d]) { bb += laik_aseq_bufsize(A[a]); for (int k = 0; k < A[a]->bufferCount; k++) bn += A[a]->bufSize[k] > 0; }
    int64_t v[] = { AC[d].mallocs, AC[d].frees, AC[d].mbytes, AC[d].fbytes, AC[d].cur, AC[d].max, bn, bb, nRed, nIni, sim_cnt[0], sim_cnt[1], sim_cnt[2], sim_cnt[3], sim_cnt[4], sim_cnt[5] };
    o(",\"re\":["); for (unsigned k = 0; k < sizeof v / sizeof *v; k++) o("%s%" PRId64, k ? "," : "", v[k]); o("]}"); return 1;
  }
  if (!strcmp(op, "ssa")) { // sum of statistics
    int n = ti(); Laik_SwitchStat* sum = laik_newSwitchStat(); o("{\"l\":[");
    for (int k = 0; k < n; k++) { int d = ti(); if (k) o(","); o_stat(D[d]->stat); laik_addSwitchStat(sum, D[d]->stat); }
    o("],\"s\":"); o_stat(sum); o("}"); free(sum); return 1;
  }
  if (!strcmp(op, "lay")) { int d = ti(); LayD[d] = ti(); if (LayD[d]) laik_data_set_layout_factory(D[d], rev_new); o("1"); return 1; }
  if (!strcmp(op, "lo")) { o_layout(ti()); return 1; }
  if (!strcmp(op, "pk") || !strcmp(op, "unpk")) {
    int un = op[0] == 'u'; int d = ti(); int s = Ds[d]; int k, a[6]; t_part(&k, a); int seed = ti(); int nc = ti(); int c[8]; for (int i = 0; i < nc; i++) c[i] = ti();
    Laik_Range r; Laik_Mapping* m = ownPart(D[d], k, a, &r); int es = D[d]->elemsize;
    if (!m) { o("{\"m\":-1,\"r\":[],\"c\":[]}"); return 1; }
    o("{\"m\":%d,\"r\":[", m->mapNo); o_range(s, &r); o("],\"c\":[");
    Laik_Range keep = r; Laik_Index x = r.from; int pos = 0, idle = 0, total = laik_range_size(&r), end = 0;
    for (int i = 0; idle <= nc && i < 3000; i++) {
      int size = c[i % nc]; char* b = malloc(size + 16); memset(b, 0x3A, size + 16);
      char* w = b + 8; unsigned int n;
      if (un) {
        if (pos >= total) { free(b); break; }
        for (int j = 0; j < size / es; j++) x_setv(D[d]->type, w + j * es, (seed * 7 + (pos + j) * 3) % 50 + 1);
        n = m->layout->unpack(m, &r, &x, w, size);
      } else n = m->layout->pack(m, &r, &x, w, size);
      o("%s[%d,%d,", i ? "," : "", size, (int) n); o_idx(s, &x); o(",[");
      if (!un) {
        for (unsigned int j = 0; j < n && (int) (j + 1) * es <= size; j++) o("%s%" PRId64, j ? "," : "", x_getv(D[d]->type, w + j * es));
        for (int j = -8; j < size + 8; j++) if ((j < 0 || j >= (int) n * es) && w[j] != 0x3A) { sim_event("bytes after packed elements written"); break; }
      }
      o("]]");
      free(b); pos += n; idle = n ? 0 : idle + 1;
      if (!un && pos >= total && end++ == 1) break;
    }
    if (memcmp(&r, &keep, sizeof r)) sim_event("range changed");
    o("]}"); return 1;
  }
  if (!strcmp(op, "lcp")) { // copy between mappings of two containers
    int d = ti(), e = ti(); int k, a[6]; t_part(&k, a);
    Laik_Range r, r2; Laik_Mapping* m = ownPart(D[d], k, a, &r); Laik_Mapping* m2 = 0; int b[6] = {99, 99, 99, 99, 99, 99};
    int n = 0; if (m) { Laik_Partitioning* p = laik_data_get_partitioning(D[e]); n = p && laik_myid(laik_partitioning_get_group(p)) >= 0 ? laik_my_rangecount(p) : 0; }
    Laik_Range* x = 0;
    for (int i = 0; i < n && !x; i++) { m2 = ownPart(D[e], i + k, b, &r2); x = laik_range_intersect(&r, &r2); }
    if (!x) { o("[]"); return 1; }
    r = *x;
    laik_data_copy(&r, m, m2);
    o("[{\"m\":%d,\"m2\":%d,\"r\":[", m->mapNo, m2->mapNo); o_range(Ds[d], &r); o("]}]"); return 1;
  }
  if (!strcmp(op, "kvs")) { int k = ti(); strcpy(KName[k], ts()); K[k] = laik_kvs_new(KName[k], inst); if (ti()) laik_kvs_reg_callbacks(K[k], kcr, kch, krm); o("1"); return 1; }
  if (!strcmp(op, "kset")) { int k = ti(); size_t n; char* key = t_hex(0); char* v = t_hex(&n); 
    char* w = malloc(n); memcpy(w, v, n); // memory of exactly this size
    laik_kvs_set(K[k], key, n, w); memset(w, 0x77, n); free(w); memset(key, 0x77, strlen(key)); free(key); free(v); o("1"); return 1; }
  if (!strcmp(op, "krem")) { int k = ti(); int how = ti(); char* key = t_hex(0); char* at = laik_kvs_get(K[k], key, 0); int r;
    if (how) { laik_kvs_set(K[k], key, 0, 0); r = at != 0; } else r = laik_kvs_remove(K[k], key) ? 1 : 0;
    free(key); o("%d", r); return 1; }
  if (!strcmp(op, "kclean")) { laik_kvs_clean(K[ti()]); o("1"); return 1; }
  if (!strcmp(op, "kget")) { int k = ti(); int n = ti(); o("["); for (int i = 0; i < n; i++) { if (i) o(","); char* key = t_hex(0); o_kval(K[k], key); free(key); } o("]"); return 1; }
  if (!strcmp(op, "ksync")) {
    int k = ti(); for (int i = 0; i < MAXOBJ; i++) { KCn[i] = 0; KC[i][0] = 0; }
    laik_kvs_sync(K[k]);
    for (int i = 0; i < MAXOBJ; i++) if (i != k && KCn[i]) sim_event("callback of another store");
    o("{\"calls\":[%s],\"dump\":[", KC[k]);
    int first = 1;
    for (unsigned int i = 0; i < laik_kvs_count(K[k]); i++) {
      Laik_KVS_Entry* e = laik_kvs_getn(K[k], i); if (!laik_kvs_data(e, 0)) continue;
      o("%s[\"", first ? "" : ","); first = 0; char* key = laik_kvs_key(e); o_hex(key, strlen(key)); o("\","); o_kval(K[k], key); o("]");
    }
    if (laik_kvs_getn(K[k], laik_kvs_count(K[k]))) sim_event("entry beyond count");
    o("]}"); return 1;
  }
  if (!strcmp(op, "dummy")) o("1");
  else if (!strcmp(op, "scale")) { curSC = ti(); o("1"); }
  else if (!strcmp(op, "chs")) {
    int s = ti(); int64_t f[3], t[3];
    for (int d = 0; d < S[s]->dims; d++) { f[d] = abso(s, d, ti()); t[d] = abso(s, d, ti()); }
    changeSpace(s, f, t); o_space(s);
  }
  else if (!strcmp(op, "tq")) { // queries per process, in the order given
    int p = ti(); int s = Ps[p]; int n = ti();
    Laik_RangeList* l = laik_partitioning_allranges(P[p]);
    o("[");
    for (int i = 0; i < n; i++) {
      int t = ti();
      int rc = laik_rangelist_tidrangecount(l, t), mc = laik_rangelist_tidmapcount(l, t);
      o("%s{\"t\":%d,\"rc\":%d,\"mc\":%d,\"r\":[", i ? "," : "", t, rc, mc);
      for (int k = 0; k < rc; k++) { if (k) o(","); o_trs(s, laik_rangelist_tidrange(l, t, k)); }
      o("],\"m\":[");
      for (int m = 0; m < mc; m++) {
        int c = laik_rangelist_tidmaprangecount(l, t, m);
        o("%s[", m ? "," : "");
        for (int k = 0; k < c; k++) { if (k) o(","); o_trs(s, laik_rangelist_tidmaprange(l, t, m, k)); }
        o("]");
      }
      o("]}");
    }
    o("]");
  }
  else if (!strcmp(op, "g2l")) { // conversion of 1d indexes
    int d = ti(); int s = Ds[d]; int n = ti(); int mc = 0;
    Laik_Partitioning* p = laik_data_get_partitioning(D[d]);
    if (p && laik_myid(laik_partitioning_get_group(p)) >= 0) mc = laik_my_mapcount(p);
    o("[");
    for (int i = 0; i < n; i++) {
      int64_t x = abso(s, 0, ti()); int m = -7; uint64_t li = 0, li2 = 0;
      Laik_Mapping* a = laik_global2maplocal_1d(D[d], x, &m, &li);
      Laik_Mapping* b = laik_global2local_1d(D[d], x, &li2);
      if (a != b || (a && li != li2)) sim_event("global2local and global2maplocal differ");
      if (!a) { o("%s[-1,0,0]", i ? "," : ""); if (m >= 0) sim_event("mapping number without mapping"); continue; }
      if (a != laik_get_map(D[d], m) || laik_map_get_mapNo(a) != m) sim_event("mapping number");
      int64_t back = laik_maplocal2global_1d(D[d], m, li);
      if (mc == 1 && laik_local2global_1d(D[d], li) != back) sim_event("local2global");
      o("%s[%d,%" PRId64 ",%" PRId64 "]", i ? "," : "", m, (int64_t) li, rel(s, 0, back));
    }
    o("]");
  }
  else if (!strcmp(op, "rng")) { // operations on pairs of ranges
    int s = ti(); int n = ti(); int dims = S[s]->dims;
    o("[");
    for (int i = 0; i < n; i++) {
      Laik_Range a, b, c, sp; t_range(s, &a); t_range(s, &b); sp = S[s]->range;
      // other ways to create the same range
      if (i & 1) {
        Laik_Range x = a;
        memset(&a, 0x55, sizeof a);
        if (dims == 1) laik_range_init_1d(&a, S[s], x.from.i[0], x.to.i[0]);
        if (dims == 2) laik_range_init_2d(&a, S[s], x.from.i[0], x.to.i[0], x.from.i[1], x.to.i[1]);
        if (dims == 3) laik_range_init_3d(&a, S[s], x.from.i[0], x.to.i[0], x.from.i[1], x.to.i[1], x.from.i[2], x.to.i[2]);
      }
      if (i & 2) { Laik_Range x = b; memset(&b, 0x55, sizeof b); laik_range_init_copy(&b, &x); }
      int nonneg = 1; for (int d = 0; d < dims; d++) if (a.from.i[d] > a.to.i[d]) nonneg = 0;
      o("%s{\"e\":[%d,%d],\"z\":%" PRId64 ",\"w\":[%d,%d,%d],\"q\":[%d,%d],\"i\":[", i ? "," : "", laik_range_isEmpty(&a) ? 1 : 0, laik_range_isEmpty(&b) ? 1 : 0,
        nonneg ? sizeOf(s, laik_range_size(&a)) : -1, laik_range_within_range(&a, &b) ? 1 : 0, laik_range_within_range(&b, &a) ? 1 : 0, laik_range_within_space(&a, S[s]) ? 1 : 0,
        laik_range_isEqual(&a, &b) ? 1 : 0, laik_index_isEqual(dims, &a.from, &b.from) ? 1 : 0);
      Laik_Range* x = laik_range_intersect(&a, &b);
      if (x) o_range(s, x);
      o("],\"i2\":["); x = laik_range_intersect(&b, &a); if (x) o_range(s, x);
      o("],\"x\":["); c = a; laik_range_expand(&c, &b); o_range(s, &c); 
      if (memcmp(&sp, &S[s]->range, sizeof sp)) sim_event("space changed by range operation");
      o("]}");
    }
    o("]");
  }
  else return 0;
  return 1;
}
