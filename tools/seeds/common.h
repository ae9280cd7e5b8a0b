// helpers of the demonstrations
#include "laik-internal.h"
#include "laik.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
static int bad = 0;
#define EXPECT(c, ...) do { if (!(c)) { bad = 1; fprintf(stderr, "demo: " __VA_ARGS__); fprintf(stderr, " (line %d)\n", __LINE__); } } while (0)
typedef struct { int task, tag; int64_t f[3], t[3]; } Ent;
typedef struct { int n; Ent* e; } EntList;
static void runEnts(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp)
{
  EntList* l = (EntList*) laik_partitioner_data(pp->partitioner);
  for (int i = 0; i < l->n; i++) {
    Laik_Range r; Laik_Index a, b;
    laik_index_init(&a, l->e[i].f[0], l->e[i].f[1], l->e[i].f[2]);
    laik_index_init(&b, l->e[i].t[0], l->e[i].t[1], l->e[i].t[2]);
    laik_range_init(&r, pp->space, &a, &b);
    laik_append_range(rr, l->e[i].task, &r, l->e[i].tag, 0);
  }
}
static Laik_Partitioning* plist(Laik_Group* g, Laik_Space* s, int flags, int n, Ent* e)
{
  EntList* l = malloc(sizeof *l); l->n = n; l->e = malloc(n * sizeof(Ent)); memcpy(l->e, e, n * sizeof(Ent));
  return laik_new_partitioning(laik_new_partitioner("ents", runEnts, l, flags), g, s, 0);
}
#define E1(t, g, a, b) {t, g, {a, 0, 0}, {b, 0, 0}}
#define E2(t, g, a, b, c, d) {t, g, {a, c, 0}, {b, d, 0}}
#define E3(t, g, a, b, c, d, e, f) {t, g, {a, c, e}, {b, d, f}}
#define PLIST(g, s, flags, ...) plist(g, s, flags, sizeof((Ent[]){__VA_ARGS__}) / sizeof(Ent), (Ent[]){__VA_ARGS__})
// owner of a 1d index in a partitioning with all ranges known; -1: nobody, -2: several
static int owner1(Laik_Partitioning* p, int64_t i)
{
  int o = -1;
  for (int k = 0; k < laik_partitioning_rangecount(p); k++) {
    Laik_TaskRange* t = laik_partitioning_get_taskrange(p, k); const Laik_Range* r = laik_taskrange_get_range(t);
    if (r->from.i[0] <= i && i < r->to.i[0]) { if (o != -1) return -2; o = laik_taskrange_get_task(t); }
  }
  return o;
}
// address of 1d element in mapping m
static char* at1(Laik_Data* d, int m, int64_t i)
{
  void* b; uint64_t c; Laik_Mapping* mp = laik_get_map_1d(d, m, &b, &c);
  return (char*) b + (i - mp->requiredRange.from.i[0]) * d->elemsize;
}
#define D1(d, i) (*(double*) at1(d, 0, i))
#define DM(d, m, i) (*(double*) at1(d, m, i))
static int finish(Laik_Instance* inst) { laik_finalize(inst); return bad; }
