SEEDS = [
dict(id="p01-chalo-last-narrow", property="P01", np=2,
  edits=[("src/partitioner.c", ("if (to->i[1] < range.to.i[1] - d)", 0), "if (to->i[1] + d < range.to.i[1] - d)")],
  needs="2d corner halo where a neighbouring block at the upper border of the second dimension is narrower than two halo depths",
  breaks="corner halo gives a process the whole rest of the space instead of only the halo depth",
  demo=r'''
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_2d(inst, 5, 8);
  Laik_Partitioning* b = PLIST(w, s, 0, E2(0, 1, 0, 5, 0, 6), E2(1, 1, 0, 5, 6, 8));
  Laik_Partitioning* h = laik_new_partitioning(laik_new_cornerhalo_partitioner(1), w, s, b);
  for (int k = 0; k < laik_partitioning_rangecount(h); k++) {
    Laik_TaskRange* t = laik_partitioning_get_taskrange(h, k); const Laik_Range* r = laik_taskrange_get_range(t);
    if (laik_taskrange_get_task(t) == 0) EXPECT(r->from.i[1] == 0 && r->to.i[1] == 7, "halo of 0 ends at %d", (int) r->to.i[1]);
    else EXPECT(r->from.i[1] == 5 && r->to.i[1] == 8, "halo of 1 starts at %d", (int) r->from.i[1]);
  }
  return finish(inst);
}
'''),
dict(id="p01-block-cycle-weight", property="P01", np=2,
  edits=[("src/partitioner.c", """            // update taskW
            if (data && data->getTaskW)
                taskW""", """            // update taskW
            if (data && data->getTaskW && ((task > 0) || (cycle < 2)))
                taskW""")],
  needs="block partitioning with more than two cycles and a process weight of the first process different from the average",
  breaks="from the third cycle on the first process gets the average share instead of its weight",
  demo=r'''
static double tw(int r, const void* d) { (void) d; return r == 0 ? 3.0 : 1.0; }
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_1d(inst, 80);
  Laik_Partitioning* p = laik_new_partitioning(laik_new_block_partitioner(0, 4, 0, tw, 0), w, s, 0);
  int c = 0;
  for (int i = 0; i < 80; i++) if (owner1(p, i) == 0) c++;
  EXPECT(c >= 56 && c <= 64, "process 0 with weight 3 of 4 got %d of 80", c);
  return finish(inst);
}
'''),
dict(id="p01-reassign-weight-base", property="P01", np=4,
  edits=[("src/partitioner.c", ("                idx.i[0] = i;", 1), "                idx.i[0] = i - from;")],
  needs="reassigning with an index weight function that depends on the position, for ranges not starting at 0",
  breaks="shares are computed with the weights of other indexes, so one process takes (nearly) everything",
  demo=r'''
static double iw(Laik_Index* i, const void* d) { (void) d; return i->i[0] < 20 ? 100.0 : 1.0; }
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_1d(inst, 80);
  Laik_Partitioning* p = laik_new_partitioning(laik_new_block_partitioner1(), w, s, 0);
  int rem[1] = {2};
  Laik_Group* g = laik_new_shrinked_group(w, 1, rem);
  Laik_Partitioning* q = laik_new_partitioning(laik_new_reassign_partitioner(g, iw, 0), w, s, p);
  int c[4] = {0, 0, 0, 0};
  for (int i = 40; i < 60; i++) { int o = owner1(q, i); EXPECT(o >= 0, "owner"); if (o >= 0) c[o]++; }
  EXPECT(c[0] >= 6 && c[1] >= 6 && c[3] >= 6, "shares %d %d %d", c[0], c[1], c[3]);
  return finish(inst);
}
'''),
dict(id="p01-copy-tags", property="P01", np=1,
  edits=[("src/partitioner.c", """        range.to.i[toDim] = s->to.i[fromDim];
        laik_append_range(r, laik_taskrange_get_task(ts), &range,
                          laik_taskrange_get_tag(ts), 0);""", """        range.to.i[toDim] = s->to.i[fromDim];
        laik_append_range(r, laik_taskrange_get_task(ts), &range,
                          laik_taskrange_get_tag(ts) > 1, 0);""")],
  needs="copying the borders of a partitioning with tags above 1 (several groups of ranges per process)",
  breaks="the copied partitioning groups the ranges into other mappings than the base",
  demo=r'''
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_1d(inst, 12); Laik_Space* s2 = laik_new_space_2d(inst, 3, 12);
  Laik_Partitioning* p = PLIST(w, s, 0, E1(0, 2, 0, 4), E1(0, 3, 4, 8), E1(0, 2, 8, 12));
  Laik_Partitioning* q = laik_new_partitioning(laik_new_copy_partitioner(0, 1), w, s2, p);
  EXPECT(laik_my_mapcount(p) == 2, "base"); EXPECT(laik_my_mapcount(q) == 2, "copy has %d mappings", laik_my_mapcount(q));
  return finish(inst);
}
'''),
dict(id="p04-group-lookup", property="P04", np=5,
  edits=[("src/space.c", "        for(j = 0; j < tg->count; j++)\n", "        for(j = 0; (j < tg->count) && (j < 3); j++)\n"),
         ("src/space.c", "        if (j == tg->count)\n            return i; // found", "        if ((j == tg->count) || (j == 3))\n            return i; // found")],
  needs="a transition with two reductions over groups of the same size that differ only from the fourth member on (5 processes)",
  breaks="the second reduction is planned with the process group of the first one",
  demo=r'''
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_1d(inst, 8);
  Laik_Partitioning* p = PLIST(w, s, 0, E1(0, 0, 0, 8), E1(1, 0, 0, 8), E1(2, 0, 0, 8), E1(3, 0, 0, 4), E1(4, 0, 4, 8));
  Laik_Partitioning* q = laik_new_partitioning(laik_Master, w, s, 0);
  Laik_Transition* t = laik_calc_transition(s, p, q, LAIK_DF_Preserve, LAIK_RO_Sum);
  for (int i = 0; i < t->redCount; i++) {
    int64_t f = t->red[i].range.from.i[0];
    int in3 = laik_trans_isInGroup(t, t->red[i].inputGroup, 3), in4 = laik_trans_isInGroup(t, t->red[i].inputGroup, 4);
    EXPECT(in3 == (f < 4) && in4 == (f >= 4), "wrong inputs for range from %d", (int) f);
  }
  return finish(inst);
}
'''),
dict(id="p04-out-nearly-all", property="P04", np=3,
  edits=[("src/space.c", "if (groupList[out].count == group->size) out = -1;", "if ((groupList[out].count > 1) && (groupList[out].count >= group->size - (groupList[in].count == group->size))) out = -1;"),
         ("src/space.c", "if (groupList[in].count == group->size) in = -1;", "int allIn = (groupList[in].count == group->size);"),
         ("src/space.c", "                assert(redOp != LAIK_RO_None); // must be a real reduction", "                if (allIn) in = -1;\n                assert(redOp != LAIK_RO_None); // must be a real reduction")],
  needs="a reduction with input from everybody and output to all but one process (more than one)",
  breaks="the reduction is planned with output to everybody, including the process that does not hold the index afterwards",
  demo=r'''
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_1d(inst, 8);
  Laik_Partitioning* p = laik_new_partitioning(laik_All, w, s, 0);
  Laik_Partitioning* q = PLIST(w, s, 0, E1(0, 0, 0, 8), E1(2, 0, 0, 8));
  Laik_Transition* t = laik_calc_transition(s, p, q, LAIK_DF_Preserve, LAIK_RO_Sum);
  EXPECT(t->redCount == 1, "count");
  EXPECT(laik_trans_groupCount(t, t->red[0].outputGroup) == 2, "outputs %d", laik_trans_groupCount(t, t->red[0].outputGroup));
  return finish(inst);
}
'''),
]
