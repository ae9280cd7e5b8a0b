def seed(id, property, edits, needs, breaks, code, n, secs=40): return dict(id=id, property=property, np=1, edits=edits, needs=needs, breaks=breaks, run="timeout 200 ./demo", raw=True,
  extra=["tcp2.h", "common.h"], demo='#include "tcp2.h"\n' + code.strip() + '\nint main() { return world(%d, prog, %d); }\n' % (n, secs))
T2 = "src/backend-tcp2.c"
SEEDS = [
seed("p12-dead-count", "P12", [(T2, "    d->deadPeers += markedDead;", "    d->deadPeers = markedDead;")],
  "a resize after which processes leave, followed by further resizes", "the master counts the processes wrongly and ends in an assertion failure at the resize after next",
  r'''
static void prog(void)
{
  Laik_Instance* inst = start(); Laik_Group* w = laik_world(inst); int phase = 0, me = laik_myid(w), gone = 0;
  while (phase < 400 && gone < 2) {
    if (me == 0 && (phase == 0 || gone == 1 && !sh->x[1])) { sh->x[gone] = 1; ask("cutoff :%d$\n", sh->pid[3 - gone]); }
    int old = laik_size(w);
    ms(5); phase++;
    w = laik_allow_world_resize(inst, phase);
    if (laik_myid(w) < 0) { laik_finalize(inst); return; }
    if (laik_size(w) != old) { EXPECT(laik_size(w) == old - 1, "size %d", laik_size(w)); gone++; laik_finish_world_resize(inst); }
  }
  EXPECT(gone == 2, "%d processes left", gone);
  for (int i = 0; i < 3; i++) w = laik_allow_world_resize(inst, ++phase);
  EXPECT(laik_size(w) == 2, "size %d at the end", laik_size(w));
  laik_finalize(inst);
}'''
, 4),
seed("p13-bin-header", "P13", [(T2, "            if (pos1 + 2 >= used) {", "            if (pos1 + 1 >= used) {")],
  "binary data arriving in packets one of which ends within the header of a block", "the length of the block is read wrongly, so data is lost or taken for commands",
  r'''
#include <sys/syscall.h>
// the network delivers in small pieces
static unsigned piece = 1;
ssize_t read(int fd, void* b, size_t n)
{
  struct sockaddr_in a; socklen_t l = sizeof a;
  if (getpeername(fd, (struct sockaddr*) &a, &l) == 0) { piece = piece % 5 + 1; if (n > piece) n = piece; }
  return syscall(SYS_read, fd, b, n);
}
static void prog(void)
{
  Laik_Instance* inst = start(); Laik_Group* w = laik_world(inst); int me = laik_myid(w);
  Laik_Space* s = laik_new_space_1d(inst, 600); Laik_Data* d = laik_new_data(s, laik_Double);
  for (int k = 1; k < 20; k++) {
    Laik_Partitioning* p = PLIST(w, s, 0, E1(0,0,0,600)), *q = PLIST(w, s, 0, E1(1,0,0,k*10), E1(0,0,k*10,600));
    laik_switchto_partitioning(d, p, LAIK_DF_None, LAIK_RO_None);
    if (me == 0) for (int i = 0; i < 600; i++) D1(d, i) = i * k + .5;
    laik_switchto_partitioning(d, q, LAIK_DF_Preserve, LAIK_RO_None);
    if (me == 1) for (int i = 0; i < k * 10; i++) EXPECT(D1(d, i) == i * k + .5, "index %d: %f", i, D1(d, i));
  }
  laik_finalize(inst);
}'''
, 2),
]
