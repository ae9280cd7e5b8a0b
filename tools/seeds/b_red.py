SEEDS = [
dict(id="p06-min-wrap", property="P06", np=2, env="export LAIK_MPI_REDUCE=0",
  edits=[("src/type.c", ("            pout[i] = (pin1[i] < pin2[i]) ? pin1[i] : pin2[i];", 3), "            pout[i] = ((int32_t)(pin1[i] - pin2[i]) < 0) ? pin1[i] : pin2[i];")],
  needs="minimum of 32 bit unsigned values further apart than half of their range, reduced by the library itself (LAIK_MPI_REDUCE=0)",
  breaks="the minimum of unsigned values far apart is the larger one",
  demo=r'''
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_1d(inst, 4); Laik_Data* d = laik_new_data(s, laik_UInt32);
  Laik_Partitioning* p = laik_new_partitioning(laik_All, w, s, 0);
  laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
  for (int i = 0; i < 4; i++) *(uint32_t*) at1(d, 0, i) = laik_myid(w) ? 4000000000u : (uint32_t) i;
  laik_switchto_flow(d, LAIK_DF_Preserve, LAIK_RO_Min);
  for (int i = 0; i < 4; i++) EXPECT(*(uint32_t*) at1(d, 0, i) == (uint32_t) i, "minimum is %u", *(uint32_t*) at1(d, 0, i));
  return finish(inst);
}
'''),
dict(id="p06-three-rounds-first", property="P06", np=10, env="export LAIK_MPI_REDUCE=0",
  edits=[("src/action.c", ("        for(int t = 1; t < inCount; t++)", 0), "        for(int t = (ba->fromBuf == ba->toBuf) ? 1 : inputFromMe; t < inCount; t++)")],
  needs="library side reduction with at least 9 contributing processes where the collecting process is none of them",
  breaks="the contribution of the first process is used twice",
  demo=r'''
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst); int me = laik_myid(w);
  Laik_Space* s = laik_new_space_1d(inst, 4); Laik_Data* d = laik_new_data(s, laik_Double);
  Laik_Partitioning* p = PLIST(w, s, 0, E1(1,0,0,4), E1(2,0,0,4), E1(3,0,0,4), E1(4,0,0,4), E1(5,0,0,4), E1(6,0,0,4), E1(7,0,0,4), E1(8,0,0,4), E1(9,0,0,4));
  Laik_Partitioning* m = laik_new_partitioning(laik_Master, w, s, 0);
  laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
  if (me > 0) for (int i = 0; i < 4; i++) D1(d, i) = me * 10 + i;
  laik_switchto_partitioning(d, m, LAIK_DF_Preserve, LAIK_RO_Sum);
  if (me == 0) for (int i = 0; i < 4; i++) EXPECT(D1(d, i) == 450 + 9 * i, "sum is %f", D1(d, i));
  return finish(inst);
}
'''),
dict(id="p05-reservation-larger", property="P05", np=1,
  edits=[("src/data.c", "        if (laik_range_isEmpty(&(rMap->requiredRange)))", "        if (laik_range_isEmpty(&(rMap->requiredRange)) ||\n            (laik_range_size(&(pMap->requiredRange)) > laik_range_size(&(rMap->requiredRange))))")],
  needs="a reservation for two partitionings where the second has the larger range that does not contain the range of the first",
  breaks="memory is reserved for the larger range only",
  demo=r'''
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_1d(inst, 10); Laik_Data* d = laik_new_data(s, laik_Double);
  Laik_Partitioning* p = PLIST(w, s, LAIK_PF_NoFullCoverage, E1(0,1,0,4)); Laik_Partitioning* q = PLIST(w, s, LAIK_PF_NoFullCoverage, E1(0,1,3,10));
  Laik_Reservation* r = laik_reservation_new(d); laik_reservation_add(r, p); laik_reservation_add(r, q); laik_reservation_alloc(r); laik_data_use_reservation(d, r);
  laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
  for (int i = 0; i < 4; i++) D1(d, i) = i + 1;
  laik_switchto_partitioning(d, q, LAIK_DF_Preserve, LAIK_RO_Sum);
  EXPECT(D1(d, 3) == 4, "value %f", D1(d, 3));
  return finish(inst);
}
'''),
dict(id="p05-copy-plane", property="P05", np=1,
  edits=[("src/layout_lex.c", "    for(int64_t i3 = 0; i3 < count.i[2]; i3++) {", "    // rows next to each other: copy them at once\n    if ((dims > 1) && ((uint64_t) count.i[0] == toLayoutEntry->stride[1]) &&\n        (fromLayoutEntry->count >= toLayoutEntry->count)) {\n        count.i[0] *= count.i[1];\n        count.i[1] = 1;\n    }\n\n    for(int64_t i3 = 0; i3 < count.i[2]; i3++) {")],
  needs="a local copy between 2d blocks without memory reuse where only the new block has the width of the copied range",
  breaks="rows after the first one get elements from beside the copied range",
  demo=r'''
int main(int argc, char* argv[])
{
  Laik_Instance* inst = laik_init(&argc, &argv); Laik_Group* w = laik_world(inst);
  Laik_Space* s = laik_new_space_2d(inst, 6, 6); Laik_Data* d = laik_new_data(s, laik_Double);
  Laik_Partitioning* p = PLIST(w, s, LAIK_PF_NoFullCoverage, E2(0,1,0,6,0,4)); Laik_Partitioning* q = PLIST(w, s, LAIK_PF_NoFullCoverage, E2(0,1,0,3,1,6));
  double* b; uint64_t xs, ys, st;
  laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
  laik_get_map_2d(d, 0, (void**) &b, &ys, &st, &xs);
  for (int y = 0; y < 4; y++) for (int x = 0; x < 6; x++) b[x + y * st] = 10 * y + x;
  laik_switchto_partitioning(d, q, LAIK_DF_Preserve, LAIK_RO_None);
  laik_get_map_2d(d, 0, (void**) &b, &ys, &st, &xs);
  for (int y = 1; y < 4; y++) for (int x = 0; x < 3; x++) EXPECT(b[x + (y - 1) * st] == 10 * y + x, "wrong value");
  return finish(inst);
}
'''),
]
