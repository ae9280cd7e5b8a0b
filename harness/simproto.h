// Protocol between a simulated process (child) and the coordinator (sim.cpp).
#ifndef SIMPROTO_H
#define SIMPROTO_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum {
  SP_LOG = 1,     // a0 = script step; payload = JSON; no reply
  SP_EVENT,       // payload = text describing a transport misuse; no reply
  // MPI
  SP_SEND = 10,   // a0 dst a1 tag a2 comm a3 datatype a4 count  payload
  SP_RECV,        // a0 src a1 tag a2 comm a3 datatype a4 max count
  SP_ISEND,       // + a5 request id
  SP_IRECV,       // + a5 request id
  SP_WAIT,        // a0 request id
  SP_TEST,        // a0 request id; reply a0 = flag
  SP_COLL,        // a0 kind a1 comm a2 root/color a3 datatype a4 count a5 op/key
  SP_COMMINFO,    // a0 comm; reply a0 size a1 rank
  SP_FINALIZE,
  SP_PROBE,
  // sockets (simulated for the TCP2 backend)
  SP_SOCK = 40,   // a0 SK_*, a1 fd; reply a0 result, a1 errno
  SP_SPAWN,       // a0 = 1: wait until the new process cannot go on; starts a joining process
  SP_OUTSIDE      // payload = text to send to the listening port a0; a1: close afterwards
};
enum { SK_SOCKET = 1, SK_BIND, SK_LISTEN, SK_CONNECT, SK_ACCEPT, SK_NAME, SK_READ, SK_WRITE, SK_CLOSE, SK_SELECT };
enum { CK_BARRIER = 1, CK_BCAST, CK_REDUCE, CK_ALLREDUCE, CK_GATHER, CK_ALLGATHER, CK_DUP, CK_SPLIT };

typedef struct {
  int32_t type, step;
  int32_t a[8];
  int64_t len;
} SimMsg;

extern int sim_fd;        // socket to the coordinator (-1: not simulated)
extern int sim_rank;
extern int64_t sim_cnt[6]; // messages sent, bytes, received, bytes, reductions, bytes
extern int sim_step;      // current script step
extern int sim_id;        // identity for observations (-1: the number of the process)
extern int64_t sim_clk, sim_back; // virtual time of this process in us; part of it spent in communication
void sim_write(const SimMsg* m, const void* payload);
// returns payload (malloc) or NULL
void* sim_read(SimMsg* m);
void* sim_call(SimMsg* m, const void* payload); // write + read reply
void sim_log(int step, const char* json);
void sim_event(const char* fmt, ...);
#ifdef __cplusplus
}
#endif
#endif
