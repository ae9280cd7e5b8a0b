PRE = "Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst); int me = laik_myid(w); (void) me;"
def main(body): return "\nint main(int argc, char* argv[])\n{\n  " + PRE + body + "  return finish(inst);\n}\n"
SEEDS = [
dict(id="p02-nested-merge", property="P02", np=1,
  edits=[("src/rangelist.c", "        if (list->trange[dstOff].range.to.i[0] < list->trange[srcOff].range.to.i[0])\n            list->trange[dstOff]", "        list->trange[dstOff]")],
  needs="merging of ranges where one range lies within another one and ends before it",
  breaks="the end of the outer range gets lost",
  demo=main(r'''
  Laik_Space* s = laik_new_space_1d(inst, 20);
  Laik_Partitioning* p = PLIST(w, s, LAIK_PF_Merge | LAIK_PF_NoFullCoverage, E1(0,0,0,10), E1(0,0,2,5));
  EXPECT(laik_partitioning_rangecount(p) == 1, "%d ranges", laik_partitioning_rangecount(p));
  EXPECT(owner1(p, 7) == 0, "index 7 not owned");
''')),
dict(id="p03-equal-size", property="P03", np=1,
  edits=[("src/space.c", "    if (!laik_index_isEqual(dims, &(r1->to), &(r2->to))) return false;\n    return true;", "    // same start: only the extent can be different\n    (void) dims;\n    return laik_range_size(r1) == laik_range_size(r2);")],
  needs="two 2d or 3d ranges with the same start and the same number of indexes, but another shape",
  breaks="the ranges are said to be equal",
  demo=main(r'''
  Laik_Space* s = laik_new_space_2d(inst, 10, 10); Laik_Range a, b;
  laik_range_init_2d(&a, s, 1, 3, 1, 4); laik_range_init_2d(&b, s, 1, 4, 1, 3);
  EXPECT(!laik_range_isEqual(&a, &b), "2x3 equals 3x2");
  laik_range_init_2d(&b, s, 1, 3, 1, 4); EXPECT(laik_range_isEqual(&a, &b), "same not equal");
''')),
dict(id="p03-expand-z", property="P03", np=1,
  edits=[("src/space.c", "    if (src->to.i[2] > dst->to.i[2]) dst->to.i[2] = src->to.i[2];", "    else if (src->to.i[2] > dst->to.i[2]) dst->to.i[2] = src->to.i[2];")],
  needs="expanding a 3d range by one which starts before and ends after it in the third dimension",
  breaks="the expanded range does not contain the other one",
  demo=main(r'''
  Laik_Space* s = laik_new_space_3d(inst, 10, 10, 10); Laik_Range a, b;
  laik_range_init_3d(&a, s, 1, 3, 1, 4, 4, 5); laik_range_init_3d(&b, s, 1, 3, 1, 4, 2, 8);
  laik_range_expand(&a, &b);
  EXPECT(a.from.i[2] == 2 && a.to.i[2] == 8, "expanded to [%d;%d[", (int) a.from.i[2], (int) a.to.i[2]);
''')),
dict(id="p09-row-resume", property="P09", np=1,
  edits=[("src/layout_lex.c", ("                if (size < elemsize) {\n                    stop = true;\n                    break;\n                }\n\n#if DEBUG_PACK", 0), "                // complete row left: copy it at once\n                int64_t left = to0 - from0;\n                if (((uint64_t) left * elemsize <= size) && (i1 + 1 < to1)) {\n                    memcpy(buf, idxPtr, left * elemsize);\n                    idxPtr += left * elemsize;\n                    size -= left * elemsize;\n                    buf += left * elemsize;\n                    count += left;\n                    i0 = to0;\n                    break;\n                }\n                if (size < elemsize) {\n                    stop = true;\n                    break;\n                }\n\n#if DEBUG_PACK")],
  needs="packing in chunks where a chunk starts in the middle of a row",
  breaks="elements beside the range are packed",
  demo=main(r'''
  Laik_Space* s = laik_new_space_2d(inst, 8, 6); Laik_Data* d = laik_new_data(s, laik_Double);
  Laik_Partitioning* p = laik_new_partitioning(laik_All, w, s, 0);
  laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
  Laik_Mapping* m = laik_get_map(d, 0); double* v = (double*) m->base; for (int i = 0; i < 48; i++) v[i] = i;
  Laik_Range r; laik_range_init_2d(&r, s, 2, 6, 1, 5);
  double out[32]; int n = 0; unsigned c; Laik_Index idx = r.from;
  c = m->layout->pack(m, &r, &idx, (char*) out, 2 * sizeof(double)); EXPECT(c == 2, "packed %u", c); n = c;
  c = m->layout->pack(m, &r, &idx, (char*) (out + n), 6 * sizeof(double)); EXPECT(c == 6, "packed %u", c); n = 8;
  c = m->layout->pack(m, &r, &idx, (char*) (out + n), 16 * sizeof(double)); EXPECT(c == 8, "packed %u", c);
  for (int i = 0; i < 16; i++) EXPECT(out[i] == (1 + i / 4) * 8 + 2 + i % 4, "element %d: %f", i, out[i]);
''')),
dict(id="p10-long-keys", property="P10", np=2,
  edits=[("src/kvs.c", "    return strcmp(e1->key, e2->key);\n}\n\nvoid laik_kvs_changes_sort", "    return strncmp(e1->key, e2->key, 32);\n}\n\nvoid laik_kvs_changes_sort")],
  needs="keys which are equal in their first 32 characters",
  breaks="entries are not sorted and not found any more",
  demo=main(r"""
  Laik_KVStore* k = laik_kvs_new("demo", inst); char key[60], v[10];
  for (int i = 0; i < 20; i++) if (i % 2 == me) { sprintf(key, "some/long/path/to/a/key/common/to/all/%02d", (i * 7) % 20); sprintf(v, "%d", (i * 7) % 20); laik_kvs_sets(k, key, v); }
  laik_kvs_sync(k);
  for (int i = 0; i < 20; i++) { sprintf(key, "some/long/path/to/a/key/common/to/all/%02d", i); char* g = laik_kvs_get(k, key, 0); EXPECT(g && atoi(g) == i, "key %d: %s", i, g ? g : "-"); }
""")),
dict(id="p10-master-single", property="P10", np=2,
  edits=[("src/kvs.c", "    if (c->offUsed == 0) return;\n    assert((c->offUsed & 1) == 1); // must be odd number if not 0\n\n    assert(c->entryUsed == 0);", "    if (c->offUsed <= 3) return; // at most one entry: nothing to sort\n    assert((c->offUsed & 1) == 1); // must be odd number if not 0\n\n    assert(c->entryUsed == 0);")],
  needs="a process which changed exactly one key in a synchronisation where the first process and others changed keys",
  breaks="the single change gets lost when merging",
  demo=main(r'''
  Laik_KVStore* k = laik_kvs_new("demo", inst);
  if (me == 0) { laik_kvs_sets(k, "b", "1"); laik_kvs_sets(k, "a", "2"); }
  if (me == 1) laik_kvs_sets(k, "c", "3");
  laik_kvs_sync(k);
  if (me == 0) laik_kvs_sets(k, "b", "4");
  if (me == 1) { laik_kvs_sets(k, "d", "5"); laik_kvs_sets(k, "e", "6"); }
  laik_kvs_sync(k);
  char* want[] = {"a", "2", "b", "4", "c", "3", "d", "5", "e", "6"};
  for (int i = 0; i < 10; i += 2) { char* v = laik_kvs_get(k, want[i], 0); EXPECT(v && !strcmp(v, want[i+1]), "key %s: %s", want[i], v ? v : "-"); }
''')),
dict(id="p11-shrink-duplicates", property="P11", np=4,
  edits=[("src/core.c", "    g2->size = o;\n    g2->myid = (g->myid", "    g2->size = g->size - len;\n    g2->myid = (g->myid")],
  needs="shrinking a group with a list naming a process twice",
  breaks="the size of the group is too small",
  demo=main(r'''
  int l[] = {1, 1};
  Laik_Group* g = laik_new_shrinked_group(w, 2, l);
  EXPECT(laik_size(g) == 3, "size %d", laik_size(g));
  EXPECT(laik_myid(g) == (me == 1 ? -1 : me == 0 ? 0 : me - 1), "my id %d", laik_myid(g));
''')),
dict(id="p14-reuse-twice", property="P14", np=1,
  edits=[("src/data.c", "            if (fromMap->reusedFor >= 0) continue; // only reuse once\n", "")],
  needs="switching to a partitioning with two mappings with overlapping ranges which both are within the same old mapping",
  breaks="the two mappings share memory",
  demo=main(r'''
  Laik_Space* s = laik_new_space_1d(inst, 12); Laik_Data* d = laik_new_data(s, laik_Double);
  Laik_Partitioning* p = PLIST(w, s, 0, E1(0,1,0,12)); Laik_Partitioning* q = PLIST(w, s, 0, E1(0,1,0,8), E1(0,2,4,12));
  laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
  laik_switchto_partitioning(d, q, LAIK_DF_None, LAIK_RO_None);
  EXPECT(laik_my_mapcount(q) == 2, "%d mappings", laik_my_mapcount(q));
  Laik_Mapping *m0 = laik_get_map(d, 0), *m1 = laik_get_map(d, 1);
  for (int i = 0; i < 8; i++) ((double*) m0->base)[i] = i;
  for (int i = 0; i < 8; i++) ((double*) m1->base)[i] = 100 + i;
  for (int i = 0; i < 8; i++) EXPECT(((double*) m0->base)[i] == i, "index %d of mapping 0: %f", i, ((double*) m0->base)[i]);
''')),
dict(id="p15-change-3d", property="P15", np=2,
  edits=[("src/space.c", "        (s->range.from.i[2] == from3) && (s->range.to.i[2] == to3)) return;", "        (s->range.from.i[2] == from3) && (s->range.to.i[2] >= to3)) return;")],
  needs="a 3d space in the store which gets smaller at the end of the third dimension only",
  breaks="the change of the borders is dropped",
  demo=main(r'''
  Laik_Space* s = 0;
  if (me == 0) { s = laik_new_space_3d(inst, 4, 5, 6); laik_set_space_name(s, "demo"); laik_spacestore_set(s); }
  laik_sync_spaces(inst);
  if (me == 1) s = laik_spacestore_get(inst, "demo");
  EXPECT(s && laik_space_size(s) == 120, "no space");
  if (me == 0) laik_change_space_3d(s, 0, 4, 0, 5, 0, 3);
  laik_sync_spaces(inst);
  EXPECT(laik_space_size(s) == 60, "size %d", (int) laik_space_size(s));
''')),
dict(id="p16-embedded-capacity", property="P16", np=1,
  edits=[("src/data.c", "    toMap->capacity = fromMap->capacity;", "    toMap->capacity = toMap->count * data->elemsize;")],
  needs="memory reused for a smaller range and freed afterwards",
  breaks="less memory is reported to be freed than was allocated",
  demo=main(r'''
  Laik_Space* s = laik_new_space_1d(inst, 12); Laik_Data* d = laik_new_data(s, laik_Double);
  Laik_Partitioning* p = PLIST(w, s, 0, E1(0,0,0,12)); Laik_Partitioning* q = PLIST(w, s, LAIK_PF_NoFullCoverage, E1(0,0,2,6));
  laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
  for (int i = 0; i < 12; i++) D1(d, i) = i;
  laik_switchto_partitioning(d, q, LAIK_DF_Preserve, LAIK_RO_None);
  laik_switchto_partitioning(d, 0, LAIK_DF_None, LAIK_RO_None);
  EXPECT(d->stat->currAllocedBytes == 0, "%d bytes still allocated", (int) d->stat->currAllocedBytes);
''')),
dict(id="p17-empty-stops", property="P17", np=1,
  edits=[("src/external.c", "            if(!n){\n                continue;", "            if(!n){\n                break;")],
  needs="several agents where one without failures is loaded before one with failures",
  breaks="failures of agents loaded later are not delivered",
  demo=r'''
#include "laik/ext.h"
#include "laik/agent.h"
static int peek0(void) { return 0; } static int peek1(void) { return 1; }
static void get0(int* n, node_uid_t* l) { *n = 0; }
static void get1(int* n, node_uid_t* l) { *n = 1; strcpy(l[0].uid, "node7"); }
static Laik_Agent* mk(const char* name, laik_agent_peek_failed p, laik_agent_get_failed g)
{ Laik_Ft_Agent* a = calloc(1, sizeof *a); a->base.name = (char*) name; a->base.type = LAIK_AGENT_FT; a->base.isAlive = 1; a->peekfail = p; a->getfail = g; return (Laik_Agent*) a; }
static Laik_Agent* i0(int c, char** v) { return mk("a0", peek0, get0); }
static Laik_Agent* i1(int c, char** v) { return mk("a1", peek1, get1); }
''' + main(r'''
  static node_uid_t l[40]; int n = -1;
  laik_ext_load_agent_from_function(inst, i0, 0, 0); laik_ext_load_agent_from_function(inst, i1, 0, 0);
  laik_get_failed(inst, &n, l, 40);
  EXPECT(n == 1 && !strcmp(l[0].uid, "node7"), "%d failures", n);
''')),
]
