// Child side of the simulated MPI: forwards calls to the coordinator, checks the
// discipline of buffers handed to unfinished operations.
#include "mpi.h"
#include "../simproto.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

struct FakeReq {
  int id, isSend, done, err;
  char* buf;        // user buffer
  char* copy;       // isend: contents at start, irecv: original contents
  int64_t bytes;
  MPI_Status st;
  struct FakeReq* next;
};
static struct FakeReq* active = 0;
static int nextReq = 1;
static int inited = 0, finalized = 0;
#define POISON 0xA7

static int tsize(MPI_Datatype t) { return t & 0xff; }

// every pending buffer must still look as it did
static void checkPending(const char* where)
{
  for (struct FakeReq* r = active; r; r = r->next) {
    if (r->done) continue;
    if (r->isSend) {
      if (r->bytes && memcmp(r->buf, r->copy, r->bytes) != 0) {
        sim_event("buffer of unfinished MPI_Isend modified before %s", where);
        memcpy(r->copy, r->buf, r->bytes); // report once
      }
    } else {
      for (int64_t i = 0; i < r->bytes; i++)
        if ((unsigned char) r->buf[i] != POISON) {
          sim_event("buffer of unfinished MPI_Irecv modified before %s", where);
          memset(r->buf, POISON, r->bytes);
          break;
        }
    }
  }
}

static struct FakeReq* newReq(int isSend, void* buf, int64_t bytes)
{
  struct FakeReq* r = calloc(1, sizeof(*r));
  r->id = nextReq++;
  r->isSend = isSend; r->buf = buf; r->bytes = bytes;
  r->copy = malloc(bytes + 1);
  if (bytes) memcpy(r->copy, buf, bytes);
  r->next = active; active = r;
  return r;
}
static void dropReq(struct FakeReq* r)
{
  struct FakeReq** p = &active;
  while (*p && *p != r) p = &((*p)->next);
  if (*p) *p = r->next;
  free(r->copy); free(r);
}

int MPI_Init(int* argc, char*** argv) { (void)argc; (void)argv; inited = 1; return 0; }
int MPI_Init_thread(int* a, char*** b, int req, int* prov) { MPI_Init(a, b); *prov = req; return 0; }
int MPI_Initialized(int* f) { *f = inited; return 0; }
int MPI_Finalized(int* f) { *f = finalized; return 0; }
int MPI_Finalize(void)
{
  checkPending("MPI_Finalize");
  for (struct FakeReq* r = active; r; r = r->next)
    sim_event("request never completed before MPI_Finalize");
  SimMsg m = { .type = SP_FINALIZE };
  free(sim_call(&m, 0));
  finalized = 1;
  return 0;
}
int MPI_Abort(MPI_Comm c, int code) { (void)c; exit(code); }
static int coll(int kind, MPI_Comm c, int a2, MPI_Datatype t, int n, int a5,
                const void* pl, int64_t len, void* out, int64_t outmax, int* ra0)
{
  SimMsg m = { .type = SP_COLL };
  m.a[0] = kind; m.a[1] = c; m.a[2] = a2; m.a[3] = t; m.a[4] = n; m.a[5] = a5; m.len = len;
  char* r = sim_call(&m, pl);
  if (ra0) *ra0 = m.a[0];
  if (m.a[7]) { free(r); return m.a[7]; }
  if (r && out) memcpy(out, r, m.len < outmax ? m.len : outmax);
  free(r);
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { checkPending("MPI_Comm_dup"); return coll(CK_DUP, c, 0,0,0,0, 0,0,0,0, n); }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n)
{ checkPending("MPI_Comm_split"); return coll(CK_SPLIT, c, color, 0, 0, key, 0, 0, 0, 0, n); }
int MPI_Comm_size(MPI_Comm c, int* s)
{ SimMsg m = { .type = SP_COMMINFO, .a = { c } }; free(sim_call(&m, 0)); *s = m.a[0]; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* s)
{ SimMsg m = { .type = SP_COMMINFO, .a = { c } }; free(sim_call(&m, 0)); *s = m.a[1]; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler h) { (void)c; (void)h; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* res) { *res = (a == b) ? MPI_IDENT : MPI_UNEQUAL; return 0; }
int MPI_Get_processor_name(char* name, int* len) { // short, long and equal names
  if (sim_rank % 3 == 2) sprintf(name, "a node with a name of %d: %0*d", sim_rank, MPI_MAX_PROCESSOR_NAME - 40, 7); else sprintf(name, "n%d", sim_rank / 3);
  *len = strlen(name); return 0; }
int MPI_Error_string(int err, char* s, int* len) { sprintf(s, "simulated MPI error %d", err); *len = strlen(s); return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = tsize(t); return 0; }
double MPI_Wtime(void) { return 0.0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* count)
{ int s = tsize(t); *count = (s && st->bytes_ % s == 0) ? st->bytes_ / s : MPI_UNDEFINED; return 0; }

static void cnt(int k, int n, MPI_Datatype t) { sim_cnt[k]++; sim_cnt[k + 1] += (int64_t) n * tsize(t); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
  checkPending("MPI_Send");
  if (dst == MPI_PROC_NULL) return 0;
  cnt(0, n, t);
  SimMsg m = { .type = SP_SEND, .a = { dst, tag, c, t, n, 0 }, .len = (int64_t) n * tsize(t) };
  free(sim_call(&m, b));
  return m.a[7];
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
static void setst(MPI_Status* st, SimMsg* m)
{ if (st) { st->MPI_SOURCE = m->a[0]; st->MPI_TAG = m->a[1]; st->MPI_ERROR = m->a[7]; st->bytes_ = m->a[2]; } }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st)
{
  checkPending("MPI_Recv");
  if (src == MPI_PROC_NULL) return 0;
  cnt(2, n, t);
  SimMsg m = { .type = SP_RECV, .a = { src, tag, c, t, n, 0 } };
  char* r = sim_call(&m, 0);
  int64_t max = (int64_t) n * tsize(t);
  if (m.len) memcpy(b, r, m.len < max ? m.len : max);
  free(r);
  setst(st, &m);
  return m.a[7];
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* rq)
{
  checkPending("MPI_Isend"); cnt(0, n, t);
  struct FakeReq* r = newReq(1, (void*) b, (int64_t) n * tsize(t));
  SimMsg m = { .type = SP_ISEND, .a = { dst, tag, c, t, n, r->id }, .len = r->bytes };
  free(sim_call(&m, b));
  *rq = r;
  return m.a[7];
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* rq)
{ return MPI_Isend(b, n, t, dst, tag, c, rq); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* rq)
{
  checkPending("MPI_Irecv"); cnt(2, n, t);
  struct FakeReq* r = newReq(0, b, (int64_t) n * tsize(t));
  if (r->bytes) memset(b, POISON, r->bytes); // contents undefined until completion
  checkPending("MPI_Irecv (overlapping buffers)");
  SimMsg m = { .type = SP_IRECV, .a = { src, tag, c, t, n, r->id } };
  free(sim_call(&m, 0));
  *rq = r;
  return m.a[7];
}
static void finishReq(struct FakeReq* r, SimMsg* m, char* pl)
{
  r->done = 1; r->err = m->a[7];
  if (!r->isSend) {
    if (r->bytes) memcpy(r->buf, r->copy, r->bytes);
    if (m->len) memcpy(r->buf, pl, m->len < r->bytes ? m->len : r->bytes);
  }
  setst(&r->st, m);
}
int MPI_Wait(MPI_Request* rq, MPI_Status* st)
{
  struct FakeReq* r = *rq;
  if (!r) return 0;
  checkPending("MPI_Wait");
  SimMsg m = { .type = SP_WAIT, .a = { r->id } };
  char* pl = sim_call(&m, 0);
  checkPending("completion");
  finishReq(r, &m, pl);
  free(pl);
  if (st) *st = r->st;
  int err = r->err;
  dropReq(r); *rq = MPI_REQUEST_NULL;
  return err;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st)
{ int e = 0; for (int i = 0; i < n; i++) { int x = MPI_Wait(r + i, st ? st + i : 0); if (x) e = x; } return e; }
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st)
{ for (int i = 0; i < n; i++) if (r[i]) { *idx = i; return MPI_Wait(r + i, st); } *idx = MPI_UNDEFINED; return 0; }
int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st)
{
  struct FakeReq* r = *rq;
  if (!r) { *flag = 1; return 0; }
  checkPending("MPI_Test");
  SimMsg m = { .type = SP_TEST, .a = { r->id } };
  free(sim_call(&m, 0));
  *flag = m.a[0];
  if (*flag) return MPI_Wait(rq, st);
  return 0;
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st)
{
  *flag = 1;
  for (int i = 0; i < n; i++) { int f; MPI_Test(r + i, &f, st ? st + i : 0); if (!f) *flag = 0; }
  return 0;
}
int MPI_Request_free(MPI_Request* r) { *r = MPI_REQUEST_NULL; return 0; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st)
{
  SimMsg m = { .type = SP_PROBE, .a = { src, tag, c } };
  free(sim_call(&m, 0)); setst(st, &m); return m.a[7];
}
int MPI_Barrier(MPI_Comm c) { checkPending("MPI_Barrier"); return coll(CK_BARRIER, c, 0,0,0,0, 0,0,0,0,0); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{ checkPending("MPI_Bcast"); int64_t l = (int64_t) n * tsize(t); return coll(CK_BCAST, c, root, t, n, 0, b, l, b, l, 0); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{ checkPending("MPI_Reduce"); cnt(4, n, t); int64_t l = (int64_t) n * tsize(t);
  int rank; MPI_Comm_rank(c, &rank);
  if (rank != root && s == MPI_IN_PLACE) sim_event("MPI_IN_PLACE used on non-root in MPI_Reduce");
  const void* in = (s == MPI_IN_PLACE) ? r : s;
  return coll(CK_REDUCE, c, root, t, n, o, in, l, (rank == root) ? r : 0, l, 0); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{ checkPending("MPI_Allreduce"); cnt(4, n, t); int64_t l = (int64_t) n * tsize(t);
  return coll(CK_ALLREDUCE, c, 0, t, n, o, (s == MPI_IN_PLACE) ? r : s, l, r, l, 0); }
int MPI_Gather(const void* s, int sn, MPI_Datatype stp, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ checkPending("MPI_Gather"); (void)rn; (void)rt; int size, rank; MPI_Comm_size(c, &size); MPI_Comm_rank(c, &rank);
  int64_t l = (int64_t) sn * tsize(stp);
  return coll(CK_GATHER, c, root, stp, sn, 0, s, l, rank == root ? r : 0, l * size, 0); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype stp, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{ checkPending("MPI_Allgather"); (void)rn; (void)rt; int size; MPI_Comm_size(c, &size);
  int64_t l = (int64_t) sn * tsize(stp);
  return coll(CK_ALLGATHER, c, 0, stp, sn, 0, s, l, r, l * size, 0); }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stp, int dst, int stag,
                 void* rb, int rn, MPI_Datatype rtp, int src, int rtag, MPI_Comm c, MPI_Status* st)
{ MPI_Request q; MPI_Isend(sb, sn, stp, dst, stag, c, &q); int e = MPI_Recv(rb, rn, rtp, src, rtag, c, st); MPI_Wait(&q, 0); return e; }
