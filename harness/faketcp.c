// The mini-MPI interface used by the TCP backend, on the simulated transport.
// (The real mini-MPI is bound to the specification by P19.)
#include "fakempi/mpi.h"
#include "backends/tcp/minimpi.h"
#include <stdlib.h>
#include <string.h>

struct Laik_Tcp_MiniMpiComm { MPI_Comm c; };
static struct Laik_Tcp_MiniMpiComm world = { MPI_COMM_WORLD };
Laik_Tcp_MiniMpiComm* LAIK_TCP_MINIMPI_COMM_WORLD = &world;

static MPI_Datatype ty(Laik_Tcp_MiniMpiType t)
{
  switch (t) {
    case LAIK_TCP_MINIMPI_DOUBLE: return MPI_DOUBLE;
    case LAIK_TCP_MINIMPI_FLOAT: return MPI_FLOAT;
    case LAIK_TCP_MINIMPI_INT64: return MPI_INT64_T;
    case LAIK_TCP_MINIMPI_INT32: return MPI_INT32_T;
    case LAIK_TCP_MINIMPI_INT8: return MPI_INT8_T;
    case LAIK_TCP_MINIMPI_UINT64: return MPI_UINT64_T;
    case LAIK_TCP_MINIMPI_UINT32: return MPI_UINT32_T;
    case LAIK_TCP_MINIMPI_UINT8: return MPI_UINT8_T;
  }
  abort();
}
static MPI_Op op(Laik_Tcp_MiniMpiOp o)
{
  switch (o) {
    case LAIK_TCP_MINIMPI_SUM: return MPI_SUM;
    case LAIK_TCP_MINIMPI_PROD: return MPI_PROD;
    case LAIK_TCP_MINIMPI_MIN: return MPI_MIN;
    case LAIK_TCP_MINIMPI_MAX: return MPI_MAX;
    case LAIK_TCP_MINIMPI_LAND: return MPI_LAND;
    case LAIK_TCP_MINIMPI_LOR: return MPI_LOR;
    case LAIK_TCP_MINIMPI_BAND: return MPI_BAND;
    case LAIK_TCP_MINIMPI_BOR: return MPI_BOR;
  }
  abort();
}
typedef Laik_Tcp_MiniMpiComm C;
static int mk(int err, MPI_Comm c, C** n)
{
  if (err) return err;
  *n = malloc(sizeof(C));
  (*n)->c = c;
  return 0;
}
int laik_tcp_minimpi_allreduce(const void* in, void* out, int n, Laik_Tcp_MiniMpiType t, Laik_Tcp_MiniMpiOp o, const C* c)
{ return MPI_Allreduce(in ? in : MPI_IN_PLACE, out, n, ty(t), op(o), c->c); }
int laik_tcp_minimpi_reduce(const void* in, void* out, int n, Laik_Tcp_MiniMpiType t, Laik_Tcp_MiniMpiOp o, size_t root, const C* c)
{
  int r; MPI_Comm_rank(c->c, &r);
  if (!in && r != (int) root) in = out;
  return MPI_Reduce(in ? in : MPI_IN_PLACE, out, n, ty(t), op(o), (int) root, c->c);
}
int laik_tcp_minimpi_barrier(const C* c) { return MPI_Barrier(c->c); }
int laik_tcp_minimpi_bcast(void* b, int n, Laik_Tcp_MiniMpiType t, size_t root, const C* c) { return MPI_Bcast(b, n, ty(t), (int) root, c->c); }
int laik_tcp_minimpi_comm_dup(const C* c, C** n) { MPI_Comm x = 0; int e = MPI_Comm_dup(c->c, &x); return mk(e, x, n); }
int laik_tcp_minimpi_comm_split(const C* c, int color, int hint, C** n)
{
  MPI_Comm x = 0;
  int e = MPI_Comm_split(c->c, color == LAIK_TCP_MINIMPI_UNDEFINED ? MPI_UNDEFINED : color, hint, &x);
  return mk(e, x, n);
}
int laik_tcp_minimpi_comm_rank(const C* c, int* r) { return MPI_Comm_rank(c->c, r); }
int laik_tcp_minimpi_comm_size(const C* c, int* s) { return MPI_Comm_size(c->c, s); }
int laik_tcp_minimpi_error_string(int e, char* s, int* len) { return MPI_Error_string(e, s, len); }
int laik_tcp_minimpi_finalize(void) { return MPI_Finalize(); }
int laik_tcp_minimpi_initialized(int* f) { return MPI_Initialized(f); }
int laik_tcp_minimpi_init(int* a, char*** v) { return MPI_Init(a, v); }
int laik_tcp_minimpi_get_processor_name(char* name, int* len) { return MPI_Get_processor_name(name, len); }
int laik_tcp_minimpi_get_count(const Laik_Tcp_MiniMpiStatus* st, Laik_Tcp_MiniMpiType t, int* n)
{ *n = (int) (*st / (size_t) (ty(t) & 0xff)); return 0; }
int laik_tcp_minimpi_recv(void* b, int n, Laik_Tcp_MiniMpiType t, size_t src, int tag, const C* c, Laik_Tcp_MiniMpiStatus* st)
{
  MPI_Status s; int k;
  int e = MPI_Recv(b, n, ty(t), (int) src, tag, c->c, &s);
  if (e) return e;
  MPI_Get_count(&s, MPI_BYTE, &k);
  *st = (size_t) k;
  return 0;
}
int laik_tcp_minimpi_send(const void* b, int n, Laik_Tcp_MiniMpiType t, size_t dst, int tag, const C* c) { return MPI_Send(b, n, ty(t), (int) dst, tag, c->c); }
