// Coordinator: runs scenarios, each with N forked processes executing the real
// library on a simulated transport, and decides every scheduling choice from a seed.
//
// usage: sim SCENARIOS OUT      (see DESIGN.md for the file formats)
#include "simproto.h"
#include "fakempi/mpi.h"
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>
using namespace std;

static string jstr(const string& s)
{
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Rng { uint64_t s; uint32_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t)(s >> 16); } };

struct Pending { SimMsg m; string pl; bool posted = false; };
struct MpiMsg { int src, dst, tag, comm, dt; string data; int sreq; bool blocking, eager, matched = false, done = false; int sendRank; };
struct Recv { int rank, src, tag, comm, dt; int64_t max; int req; bool matched = false; bool done = false; MpiMsg msg; };
struct Req { bool isSend; bool complete = false; string data; int src = 0, tag = 0, err = 0; MpiMsg* sm = nullptr; Recv* rv = nullptr; };
struct Coll { int kind, comm, a2, dt, n, a5; map<int, Pending> arrived; set<int> left; bool computed = false; string result; map<int,int> newcomm; };

enum RS { RUNNING, BLOCKED, DONE };
struct Rank {
  int pid = 0, fd = -1, errfd = -1; RS st = RUNNING; Pending p; int status = 0; bool finalized = false;
  map<int, Req> reqs; map<int,int> collSeq;
  int id = -1; bool joiner = false; map<int, struct Sock*> socks;
};
// end point of a connection, or a listening port. What the other side wrote is first in
// flight, then delivered (readable)
struct Sock {
  int proc, fd; int kind = 0, port = 0, backlog = 0; // kind: 0 new, 1 listening, 2 connected
  deque<Sock*> acceptq; Sock* peer = nullptr;
  string flight, here; bool closed = false, eof = false, reset = false, told = false, shot = false, late = false; // late: closed at some time by someone outside
};
static const size_t SOCKBUF = 65536;

struct Sim {
  ScenarioC sc; vector<string> lines; vector<pair<string,string>> env;
  string id; int n; uint64_t seed; int mode;
  vector<Rank> rk; Rng rng;
  map<int, vector<int>> comms; int nextComm = 10;
  vector<MpiMsg*> msgs; vector<Recv*> recvs; map<pair<int,int>, Coll> colls;
  map<int, vector<string>> obs; vector<string> events; vector<string> calls;
  string end, diag; bool tracecalls = false; long served = 0; int extra = 0;
  deque<Sock> allsocks; int nextPort = 33000; int homePort = 7777; bool begun = false;

  void event(int r, int step, const string& s) {
    char b[64]; snprintf(b, 64, "{\"r\":%d,\"k\":%d,\"e\":", r, step);
    events.push_back(string(b) + jstr(s) + "}");
  }
  int commRank(int comm, int world) { auto& v = comms[comm]; for (size_t i = 0; i < v.size(); i++) if (v[i] == world) return i; return -1; }
  void reply(int r, SimMsg m, const string& pl = "") {
    m.len = pl.size(); sim_fd = rk[r].fd; sim_write(&m, pl.data()); sim_fd = -1; rk[r].st = RUNNING;
  }
  bool pickEager(int64_t bytes) {
    switch (mode & 15) { case 0: return false; case 1: return true; case 2: return rng.next() & 1; default: return bytes <= 64; }
  }
  void rec(int r, const char* c, int peer, int tag, int comm, int64_t bytes, int req, int dt) {
    if (!tracecalls) return;
    char b[256];
    snprintf(b, 256, "{\"r\":%d,\"k\":%d,\"c\":\"%s\",\"p\":%d,\"t\":%d,\"m\":%d,\"n\":%lld,\"q\":%d,\"d\":%d}",
             r, rk[r].p.m.step, c, peer, tag, comm, (long long) bytes, req, dt & 0xff);
    calls.push_back(b);
  }
  void match() {
    for (Recv* v : recvs) {
      if (v->matched) continue;
      // candidate messages: first unmatched per source in order
      vector<MpiMsg*> cand; set<int> seen;
      for (MpiMsg* m : msgs) {
        if (m->matched || m->dst != v->rank || m->comm != v->comm) continue;
        if (v->src != MPI_ANY_SOURCE && m->src != v->src) continue;
        if (v->tag != MPI_ANY_TAG && m->tag != v->tag) continue;
        if (seen.count(m->src)) continue;
        seen.insert(m->src); cand.push_back(m);
      }
      if (cand.empty()) continue;
      MpiMsg* m = cand[cand.size() > 1 ? rng.next() % cand.size() : 0];
      m->matched = true; v->matched = true; v->msg = *m;
      if ((m->dt & 0xffff) != (v->dt & 0xffff)) event(v->rank, rk[v->rank].p.m.step, "datatype of receive differs from send");
      if ((int64_t) m->data.size() > v->max) event(v->rank, rk[v->rank].p.m.step, "message longer than receive buffer");
      else if ((int64_t) m->data.size() != v->max) event(v->rank, rk[v->rank].p.m.step, "message shorter than receive");
    }
  }
  // ---- sockets
  Sock* sockOf(int r, int fd) { auto i = rk[r].socks.find(fd); return i == rk[r].socks.end() ? nullptr : i->second; }
  Sock* newSock(int r) {
    allsocks.push_back(Sock{r, -1}); Sock* k = &allsocks.back();
    if (r >= 0) { int fd = 40; while (rk[r].socks.count(fd)) fd++; k->fd = fd; rk[r].socks[fd] = k; }
    return k;
  }
  Sock* listener(int port) { for (auto& R : rk) for (auto& e : R.socks) if (e.second->kind == 1 && e.second->port == port) return e.second; return nullptr; }
  void outside(Sock* l, const string& text, int close, int lazy) {
    Sock* a = newSock(-1); Sock* b = newSock(-1); a->kind = b->kind = 2; a->peer = b; b->peer = a; (lazy ? a->flight : a->here) = text; l->acceptq.push_back(a);
    if (close == 1) closeSock(b); else if (close == 2) b->late = true; }
  void deliver(Sock* k, size_t n) {
    n = min(n, k->flight.size()); k->here += k->flight.substr(0, n); k->flight.erase(0, n);
    if (k->flight.empty() && k->peer && k->peer->closed) k->eof = true;
  }
  void closeSock(Sock* k) {
    if (k->closed) return;
    k->closed = true;
    for (Sock* a : k->acceptq) closeSock(a);
    if (k->peer) {
      if (!k->here.empty() || !k->flight.empty()) k->peer->reset = true;
      if (k->peer->flight.empty()) k->peer->eof = true;
    }
    if (k->proc >= 0 && k->fd >= 0) rk[k->proc].socks.erase(k->fd);
  }
  bool readable(Sock* k) { return k->kind == 1 ? !k->acceptq.empty() : k->kind == 2 && (!k->here.empty() || k->eof); }
  bool sockEnabled(int r) {
    SimMsg& m = rk[r].p.m; Sock* k = m.a[0] == SK_SELECT || m.a[0] == SK_SOCKET ? nullptr : sockOf(r, m.a[1]);
    switch (m.a[0]) {
    case SK_ACCEPT: return !k || k->kind != 1 || !k->acceptq.empty();
    case SK_READ: return !k || k->kind != 2 || !k->here.empty() || k->eof;
    case SK_WRITE: return !k || k->kind != 2 || k->peer->closed || k->peer->flight.size() + k->peer->here.size() < SOCKBUF;
    case SK_CONNECT: { Sock* l = listener(m.a[2]); return !l || (int) l->acceptq.size() <= l->backlog; }
    case SK_SELECT: {
      if (m.a[2] == 0) return true;
      const int32_t* f = (const int32_t*) rk[r].p.pl.data();
      for (int i = 0; i < m.a[1]; i++) { Sock* x = sockOf(r, f[i]); if (!x || readable(x)) return true; }
      return false; }
    default: return true;
    }
  }
  void sockServe(int r) {
    SimMsg& m = rk[r].p.m; Sock* k = m.a[0] == SK_SELECT || m.a[0] == SK_SOCKET ? nullptr : sockOf(r, m.a[1]);
    SimMsg o{}; string pl; bool small = (mode & 15) >= 2;
    auto fail = [&](int e) { o.a[0] = -1; o.a[1] = e; };
    if (m.a[0] != SK_SELECT && m.a[0] != SK_SOCKET && !k) { event(r, m.step, "call on a closed socket"); fail(EBADF); reply(r, o, pl); return; }
    switch (m.a[0]) {
    case SK_SOCKET: o.a[0] = newSock(r)->fd; break;
    case SK_BIND:
      if (m.a[2] && listener(m.a[2])) fail(EADDRINUSE);
      else if (rk[r].joiner && begun && m.a[2] == homePort) { // the world it wants to join has ended
        kill(rk[r].pid, SIGKILL); waitpid(rk[r].pid, &rk[r].status, 0); rk[r].pid = 0; rk[r].st = DONE; gone(r); return;
      }
      else k->port = m.a[2];
      break;
    case SK_LISTEN:
      if (k->port && listener(k->port)) fail(EADDRINUSE);
      else {
        if (!k->port) k->port = nextPort++; k->kind = 1; k->backlog = m.a[2];
        if (k->port == homePort && !begun) { begun = true; for (auto& e : env) if (e.first.compare(0, 9, "SIM_EARLY") == 0) { int cl, lz; char hx[1000]; // somebody connects at once
          if (sscanf(e.second.c_str(), "%d %d %999s", &cl, &lz, hx) == 3) { string t; for (char* c = hx; c[0] && c[1]; c += 2) t += (char) stoi(string(c, 2), 0, 16); outside(k, t, cl, lz); } } }
      }
      break;
    case SK_NAME: o.a[0] = k->port; break;
    case SK_CONNECT: {
      Sock* l = listener(m.a[2]);
      if (!l) { fail(ECONNREFUSED); break; }
      Sock* s2 = newSock(-1); s2->kind = k->kind = 2; s2->peer = k; k->peer = s2; l->acceptq.push_back(s2);
      break; }
    case SK_ACCEPT: {
      if (k->kind != 1) { fail(EINVAL); break; }
      Sock* s2 = k->acceptq.front(); k->acceptq.pop_front();
      int fd = 40; while (rk[r].socks.count(fd)) fd++;
      s2->proc = r; s2->fd = fd; rk[r].socks[fd] = s2; o.a[0] = fd;
      break; }
    case SK_READ: {
      if (k->kind != 2) { fail(ENOTCONN); break; }
      size_t n = min(k->here.size(), (size_t) m.a[2]);
      if (n == 0) { if (k->reset && !k->told) { k->told = true; fail(ECONNRESET); } break; }
      if (small && n > 1 && rng.next() % 3 == 0) n = 1 + rng.next() % n;
      pl = k->here.substr(0, n); k->here.erase(0, n); o.a[0] = n;
      break; }
    case SK_WRITE: {
      if (k->kind != 2) { fail(ENOTCONN); break; }
      if (m.a[2] == 0) break;
      if (k->peer->closed) { if (k->shot) fail(EPIPE); else { k->shot = true; o.a[0] = m.a[2]; } break; }
      size_t n = min((size_t) m.a[2], SOCKBUF - k->peer->flight.size() - k->peer->here.size());
      if (small && n > 1 && rng.next() % 5 == 0) n = 1 + rng.next() % n;
      k->peer->flight += rk[r].p.pl.substr(0, n); o.a[0] = n;
      if ((mode & 15) == 1) deliver(k->peer, n);
      break; }
    case SK_CLOSE: closeSock(k); break;
    case SK_SELECT: {
      const int32_t* f = (const int32_t*) rk[r].p.pl.data(); int c = 0;
      for (int i = 0; i < m.a[1]; i++) {
        Sock* x = sockOf(r, f[i]);
        if (!x) { event(r, m.step, "select with a closed socket"); fail(EBADF); reply(r, o); return; }
        if (readable(x)) { pl.append((const char*) &f[i], 4); c++; }
      }
      o.a[0] = c;
      break; }
    }
    reply(r, o, pl);
  }
  void gone(int r) { while (!rk[r].socks.empty()) closeSock(rk[r].socks.begin()->second); }
  vector<Sock*> moving() { vector<Sock*> v; for (auto& k : allsocks) if (!k.closed && k.kind == 2 && (!k.flight.empty() || k.late)) v.push_back(&k); return v; }
  void netStep(vector<Sock*>& mv) {
    Sock* k = mv[rng.next() % mv.size()]; size_t n = k->flight.size();
    if (k->late) { closeSock(k); return; }
    if ((mode & 15) == 3) n = 1 + rng.next() % 8; else if (rng.next() & 1) n = 1 + rng.next() % n;
    deliver(k, n);
  }
  int spawned = 0;
  bool spawnReady(int r) { // a process started by r cannot go on (or ended)
    int j = rk[r].p.m.a[7]; if (!j) return true;
    return rk[j].st == DONE || (rk[j].st == BLOCKED && !enabled(j));
  }
  // post the pending request of rank r (once)
  void post(int r) {
    Rank& R = rk[r]; Pending& p = R.p; SimMsg& m = p.m;
    if (p.posted) return;
    p.posted = true;
    switch (m.type) {
    case SP_SEND: case SP_ISEND: {
      MpiMsg* x = new MpiMsg{};
      x->comm = m.a[2]; x->src = commRank(x->comm, r); x->tag = m.a[1]; x->dt = m.a[3]; x->sendRank = r;
      auto& c = comms[x->comm];
      if (m.a[0] < 0 || m.a[0] >= (int) c.size()) { event(r, m.step, "send to invalid rank"); x->dst = -1; x->eager = true; }
      else x->dst = c[m.a[0]];
      if (x->dst == r && m.type == SP_SEND) event(r, m.step, "blocking send to itself");
      x->data = p.pl; x->blocking = m.type == SP_SEND; x->eager = x->eager || pickEager(m.len); x->sreq = m.a[5];
      msgs.push_back(x);
      rec(r, m.type == SP_SEND ? "send" : "isend", x->dst, x->tag, x->comm, m.len, m.a[5], x->dt);
      R.reqs[m.a[5]].isSend = true; R.reqs[m.a[5]].sm = x; 
      break; }
    case SP_RECV: case SP_IRECV: {
      Recv* v = new Recv{};
      v->rank = r; v->comm = m.a[2]; v->tag = m.a[1]; v->dt = m.a[3]; v->req = m.a[5];
      v->src = m.a[0]; v->max = (int64_t) m.a[4] * (m.a[3] & 0xff);
      auto& c = comms[v->comm];
      int ws = (v->src >= 0 && v->src < (int) c.size()) ? c[v->src] : -1;
      if (v->src >= 0 && ws < 0) event(r, m.step, "receive from invalid rank");
      recvs.push_back(v);
      rec(r, m.type == SP_RECV ? "recv" : "irecv", ws, v->tag, v->comm, v->max, m.a[5], v->dt);
      R.reqs[m.a[5]].isSend = false; R.reqs[m.a[5]].rv = v;
      break; }
    case SP_WAIT: rec(r, "wait", -1, 0, 0, 0, m.a[0], 0); break;
    case SP_SPAWN: { int wait = m.a[0]; int j = rk.size(); start(true); rk[r].p.m.a[7] = wait ? j : 0; return; }
    case SP_COLL: {
      int comm = m.a[1]; int seq = R.collSeq[comm]++;
      auto key = make_pair(comm, seq);
      Coll& c = colls[key];
      if (c.arrived.empty()) { c.kind = m.a[0]; c.comm = comm; c.a2 = m.a[2]; c.dt = m.a[3]; c.n = m.a[4]; c.a5 = m.a[5]; }
      else {
        bool same = c.kind == m.a[0];
        if (c.kind != CK_SPLIT && c.kind != CK_DUP) same = same && c.a2 == m.a[2] && c.dt == m.a[3] && c.n == m.a[4] && c.a5 == m.a[5];
        if (!same) event(r, m.step, "collective call does not match the one of another process");
      }
      c.arrived[r] = p;
      static const char* nm[] = {"", "barrier", "bcast", "reduce", "allreduce", "gather", "allgather", "dup", "split"};
      rec(r, nm[c.kind], (c.kind == CK_REDUCE || c.kind == CK_BCAST || c.kind == CK_GATHER) && m.a[2] >= 0 && m.a[2] < (int) comms[comm].size() ? comms[comm][m.a[2]] : -1,
          seq, comm, m.len, 0, c.dt);
      R.p.m.a[6] = seq;
      break; }
    }
    match();
  }
  bool collReady(int r) {
    SimMsg& m = rk[r].p.m; Coll& c = colls[{m.a[1], m.a[6]}];
    auto& mem = comms[c.comm];
    bool all = c.arrived.size() == mem.size();
    bool eager = (mode & 15) == 1 || ((mode & 15) == 2);
    int root = (c.kind == CK_REDUCE || c.kind == CK_GATHER || c.kind == CK_BCAST) && c.a2 >= 0 && c.a2 < (int) mem.size() ? mem[c.a2] : -1;
    if ((c.kind == CK_REDUCE || c.kind == CK_GATHER) && r != root && eager) return true;
    if (c.kind == CK_BCAST && eager) return r == root || c.arrived.count(root);
    return all;
  }
  bool enabled(int r) {
    SimMsg& m = rk[r].p.m;
    switch (m.type) {
    case SP_SEND: { MpiMsg* x = rk[r].reqs[m.a[5]].sm; return x->eager || x->matched; }
    case SP_RECV: return rk[r].reqs[m.a[5]].rv->matched;
    case SP_WAIT: { Req& q = rk[r].reqs[m.a[0]]; if (q.isSend) return q.sm && (q.sm->eager || q.sm->matched); return q.rv && q.rv->matched; }
    case SP_PROBE: { for (MpiMsg* x : msgs) if (!x->matched && x->dst == r && x->comm == m.a[2] && (m.a[0] < 0 || x->src == m.a[0]) && (m.a[1] < 0 || x->tag == m.a[1])) return true; return false; }
    case SP_COLL: return collReady(r);
    case SP_SOCK: return sockEnabled(r);
    case SP_SPAWN: return spawnReady(r);
    default: return true;
    }
  }
  template<class T> static T comb(T a, T b, int op, bool flt) {
    switch (op) {
    case MPI_SUM: return a + b; case MPI_PROD: return a * b;
    case MPI_MIN: return b < a ? b : a; case MPI_MAX: return b > a ? b : a;
    case MPI_LAND: return (a && b) ? 1 : 0; case MPI_LOR: return (a || b) ? 1 : 0;
    case MPI_LXOR: return (!a != !b) ? 1 : 0;
    case MPI_BAND: return flt ? a : (T)((uint64_t) a & (uint64_t) b);
    case MPI_BOR: return flt ? a : (T)((uint64_t) a | (uint64_t) b);
    case MPI_BXOR: return flt ? a : (T)((uint64_t) a ^ (uint64_t) b);
    } return a;
  }
  template<class T> static void red(string& acc, const string& in, int op, bool flt) {
    size_t n = min(acc.size(), in.size()) / sizeof(T);
    for (size_t i = 0; i < n; i++) {
      T a, b; memcpy(&a, &acc[i * sizeof(T)], sizeof(T)); memcpy(&b, &in[i * sizeof(T)], sizeof(T));
      a = comb<T>(a, b, op, flt); memcpy(&acc[i * sizeof(T)], &a, sizeof(T));
    }
  }
  void reduceInto(string& acc, const string& in, int dt, int op) {
    int k = (dt >> 8) & 0xff, s = dt & 0xff;
    if (k == 3) { if (s == 8) red<double>(acc, in, op, true); else red<float>(acc, in, op, true); }
    else if (k == 2) { if (s == 8) red<uint64_t>(acc, in, op, false); else if (s == 4) red<uint32_t>(acc, in, op, false); else if (s == 2) red<uint16_t>(acc, in, op, false); else red<uint8_t>(acc, in, op, false); }
    else { if (s == 8) red<int64_t>(acc, in, op, false); else if (s == 4) red<int32_t>(acc, in, op, false); else if (s == 2) red<int16_t>(acc, in, op, false); else red<int8_t>(acc, in, op, false); }
  }
  void serveColl(int r) {
    SimMsg& m = rk[r].p.m; Coll& c = colls[{m.a[1], m.a[6]}];
    auto& mem = comms[c.comm];
    SimMsg o{}; string pl;
    if (c.kind == CK_DUP || c.kind == CK_SPLIT) {
      if (!c.computed) {
        c.computed = true;
        if (c.kind == CK_DUP) { int id = nextComm++; comms[id] = mem; for (int x : mem) c.newcomm[x] = id; }
        else {
          map<int, vector<pair<pair<int,int>,int>>> col;
          for (size_t i = 0; i < mem.size(); i++) { auto& a = c.arrived[mem[i]].m.a; col[a[2]].push_back({{a[5], (int) i}, mem[i]}); }
          for (auto& e : col) {
            if (e.first == MPI_UNDEFINED) { for (auto& y : e.second) c.newcomm[y.second] = MPI_COMM_NULL; continue; }
            sort(e.second.begin(), e.second.end());
            int id = nextComm++; for (auto& y : e.second) { comms[id].push_back(y.second); c.newcomm[y.second] = id; }
          }
        }
      }
      o.a[0] = c.newcomm[r];
    } else if (c.kind == CK_REDUCE || c.kind == CK_ALLREDUCE) {
      bool all = c.arrived.size() == mem.size();
      if (all && !c.computed) {
        c.computed = true; bool first = true;
        for (int x : mem) { if (first) { c.result = c.arrived[x].pl; first = false; } else reduceInto(c.result, c.arrived[x].pl, c.dt, c.a5); }
      }
      pl = c.result;
      if (c.kind == CK_REDUCE && c.a2 >= 0 && c.a2 < (int) mem.size() && mem[c.a2] != r) pl = "";
    } else if (c.kind == CK_BCAST) pl = c.arrived[mem[c.a2]].pl;
    else if (c.kind == CK_GATHER || c.kind == CK_ALLGATHER) {
      if (c.kind == CK_ALLGATHER || mem[c.a2] == r) for (int x : mem) pl += c.arrived[x].pl;
    }
    reply(r, o, pl);
  }
  void serve(int r) {
    SimMsg& m = rk[r].p.m; SimMsg o{};
    served++;
    switch (m.type) {
    case SP_SEND: rk[r].reqs.erase(m.a[5]); reply(r, o); break;
    case SP_ISEND: case SP_IRECV: reply(r, o); break;
    case SP_RECV: { Recv* v = rk[r].reqs[m.a[5]].rv; v->done = true; o.a[0] = v->msg.src; o.a[1] = v->msg.tag; o.a[2] = v->msg.data.size();
      o.a[7] = (int64_t) v->msg.data.size() > v->max ? MPI_ERR_TRUNCATE : 0; reply(r, o, v->msg.data); break; }
    case SP_WAIT: { Req q = rk[r].reqs[m.a[0]]; rk[r].reqs.erase(m.a[0]);
      if (q.isSend) reply(r, o);
      else { Recv* v = q.rv; v->done = true; o.a[0] = v->msg.src; o.a[1] = v->msg.tag; o.a[2] = v->msg.data.size();
        o.a[7] = (int64_t) v->msg.data.size() > v->max ? MPI_ERR_TRUNCATE : 0; reply(r, o, v->msg.data); }
      break; }
    case SP_TEST: { Req& q = rk[r].reqs[m.a[0]]; bool d = q.isSend ? (q.sm->eager || q.sm->matched) : q.rv->matched; o.a[0] = d; reply(r, o); break; }
    case SP_PROBE: { for (MpiMsg* x : msgs) if (!x->matched && x->dst == r && x->comm == m.a[2] && (m.a[0] < 0 || x->src == m.a[0]) && (m.a[1] < 0 || x->tag == m.a[1])) { o.a[0] = x->src; o.a[1] = x->tag; o.a[2] = x->data.size(); break; } reply(r, o); break; }
    case SP_COLL: serveColl(r); break;
    case SP_COMMINFO: o.a[0] = comms[m.a[0]].size(); o.a[1] = commRank(m.a[0], r); reply(r, o); break;
    case SP_FINALIZE: rk[r].finalized = true; reply(r, o); break;
    case SP_SOCK: sockServe(r); break;
    case SP_SPAWN:
      if (m.a[7]) for (auto& e : rk[m.a[7]].socks) if (e.second->kind == 2) deliver(e.second->peer, SOCKBUF);
      reply(r, o); break;
    case SP_OUTSIDE: {
      Sock* l = listener(m.a[0]);
      if (l) outside(l, rk[r].p.pl, m.a[1], m.a[2]);
      o.a[0] = l ? 1 : 0;
      reply(r, o); break; }
    default: reply(r, o);
    }
  }
  string descPending(int r) {
    SimMsg& m = rk[r].p.m; char b[200];
    if (m.type == SP_SOCK) { static const char* sk[] = {"", "socket", "bind", "listen", "connect", "accept", "getsockname", "read", "write", "close", "select"};
      snprintf(b, 200, "T%d (%d) in step %d: %s %d; ", r, rk[r].id, m.step, sk[m.a[0]], m.a[1]); return b; }
    const char* t = m.type == SP_SEND ? "send to" : m.type == SP_RECV ? "receive from" : m.type == SP_WAIT ? "wait for request" : m.type == SP_COLL ? "collective" : "call";
    snprintf(b, 200, "T%d in step %d: %s %d tag %d; ", r, m.step, t, m.a[0], m.a[1]); return b;
  }
  void killAll() { for (auto& R : rk) if (R.pid > 0) { kill(R.pid, SIGKILL); } 
    for (auto& R : rk) if (R.pid > 0) { waitpid(R.pid, &R.status, 0); R.pid = 0; } }
  string tailOf(int fd) { 
    off_t e = lseek(fd, 0, SEEK_END); off_t s = e > 1500 ? e - 1500 : 0; string b(e - s, 0);
    if (pread(fd, &b[0], e - s, s) < 0) b = ""; return b; }
  bool readAll(int fd, void* p, size_t n) { char* c = (char*) p; while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; } return true; }

  bool onReadable(int r) {
    Rank& R = rk[r]; SimMsg m;
    if (!readAll(R.fd, &m, sizeof m)) {
      waitpid(R.pid, &R.status, 0); R.pid = 0; R.st = DONE; gone(r);
      // gives up registering with a world which has ended
      bool late = R.joiner && R.id < 0 && begun && !listener(homePort) && WIFSIGNALED(R.status) && WTERMSIG(R.status) == SIGABRT;
      if (!late && !(WIFEXITED(R.status) && WEXITSTATUS(R.status) == 0)) {
        end = "crash";
        char b[100]; snprintf(b, 100, "T%d ended with %s %d: ", r, WIFSIGNALED(R.status) ? "signal" : "status", WIFSIGNALED(R.status) ? WTERMSIG(R.status) : WEXITSTATUS(R.status));
        diag = b + tailOf(R.errfd);
      }
      return true;
    }
    string pl(m.len, 0); if (m.len && !readAll(R.fd, &pl[0], m.len)) return true;
    if (m.type == SP_LOG || m.type == SP_EVENT) { if (m.a[1] >= 0) R.id = m.a[1]; }
    if (m.type == SP_LOG) {
      auto& v = obs[m.a[0]]; v.resize(n + extra, "null"); int i = R.id >= 0 ? R.id : r;
      if (i >= n + extra) { event(r, m.step, "process with invalid location id"); return true; }
      if (v[i] != "null") event(r, m.step, "two processes with the same location id");
      v[i] = pl; return true; }
    if (m.type == SP_EVENT) { event(R.id >= 0 ? R.id : r, m.step, pl); return true; }
    R.p = Pending{m, pl, false}; R.st = BLOCKED;
    return true;
  }

  void start(bool joiner) {
    int r = rk.size();
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(2); }
    int efd = memfd_create("err", MFD_CLOEXEC);
    fflush(0);
    int pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      for (int k = 0; k < r; k++) { close(rk[k].fd); close(rk[k].errfd); }
      close(sv[0]);
      dup2(efd, 2); dup2(efd, 1);
      for (auto& e : env) setenv(e.first.c_str(), e.second.c_str(), 1);
      sim_fd = sv[1]; sim_rank = r;
      vector<const char*> lp; for (auto& l : lines) lp.push_back(l.c_str());
      laikvm_main(r, n, (int) lp.size(), lp.data());
      fflush(0); _exit(0);
    }
    close(sv[1]);
    rk.emplace_back(); rk[r].fd = sv[0]; rk[r].errfd = efd; rk[r].pid = pid; rk[r].joiner = joiner;
  }
  static int hangs;
  void run() {
    rng.s = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 8; i++) rng.next();
    for (int i = 0; i < n; i++) comms[MPI_COMM_WORLD].push_back(i);
    int hangms = hangs < 2 ? 20000 : 8000;
    if (hangs >= 4) { end = "skipped"; return; }
    bool mpi = true; for (auto& e : env) if (e.first == "LAIK_BACKEND" && e.second != "mpi") mpi = false;
    int more = 0; for (auto& e : env) if (e.first == "SIM_MORE") more = atoi(e.second.c_str()); // processes which may come too late for the initial world
    for (int r = 0; r < n + more; r++) start(more > 0);
    while (end.empty()) {
      vector<pollfd> pf; vector<int> who;
      for (int r = 0; r < (int) rk.size(); r++) if (rk[r].st == RUNNING) { pf.push_back({rk[r].fd, POLLIN, 0}); who.push_back(r); }
      if (!pf.empty()) {
        int k = poll(pf.data(), pf.size(), hangms);
        if (k < 0 && errno == EINTR) continue;
        if (k == 0) { hangs++; end = "hang"; diag = "no progress of T"; for (int w : who) diag += to_string(w) + " "; break; }
        for (size_t i = 0; i < pf.size(); i++) if (pf[i].revents) { onReadable(who[i]); if (!end.empty()) break; }
        continue;
      }
      bool alive = false;
      int all = rk.size();
      for (int r = 0; r < all; r++) if (rk[r].st == BLOCKED) { alive = true; }
      if (!alive) { end = "ok"; break; }
      for (int r = 0; r < all; r++) if (rk[r].st == BLOCKED) post(r);
      if ((int) rk.size() > all) continue;
      vector<int> en;
      for (int r = 0; r < all; r++) if (rk[r].st == BLOCKED && enabled(r)) en.push_back(r);
      vector<Sock*> mv = allsocks.empty() ? vector<Sock*>() : moving();
      if (!mv.empty() && (en.empty() || ((mode & 15) >= 2 && (rng.next() & 1)))) { netStep(mv); continue; }
      if (en.empty()) {
        bool waiting = true; // only processes which were never let in
        for (int r = 0; r < all; r++) if (rk[r].st == BLOCKED && !(rk[r].joiner && rk[r].id < 0)) waiting = false;
        end = waiting ? "ok" : "deadlock";
        if (!waiting) for (int r = 0; r < all; r++) if (rk[r].st == BLOCKED) diag += descPending(r);
        break;
      }
      // schedule choice: uniform, or prefer a fixed order (mode bits 4,5)
      int pick;
      if (mode & 16) pick = en.front(); else if (mode & 32) pick = en.back(); else pick = en[rng.next() % en.size()];
      serve(pick);
      if (served > 200000) { end = "hang"; diag = "too many transport calls"; }
    }
    if (end == "ok") {
      for (MpiMsg* m : msgs) if (!m->matched) event(m->sendRank, 0, "message was never received");
      for (Recv* v : recvs) if (!v->done) event(v->rank, 0, "receive was never completed");
      for (int r = 0; mpi && r < n; r++) if (!rk[r].finalized) event(r, 0, "process ended without shutting down the transport");
    }
    killAll();
    for (auto& R : rk) { close(R.fd); close(R.errfd); }
    for (auto* m : msgs) delete m; for (auto* v : recvs) delete v;
  }
  void out(FILE* f) {
    fprintf(f, "{\"id\":%s,\"n\":%d,\"end\":\"%s\",\"diag\":%s,\"ev\":[", jstr(id).c_str(), n, end.c_str(), jstr(diag).c_str());
    for (size_t i = 0; i < events.size(); i++) fprintf(f, "%s%s", i ? "," : "", events[i].c_str());
    fprintf(f, "],\"obs\":{");
    bool first = true;
    for (auto& o : obs) {
      fprintf(f, "%s\"%d\":[", first ? "" : ",", o.first); first = false;
      for (size_t i = 0; i < o.second.size(); i++) fprintf(f, "%s%s", i ? "," : "", o.second[i].c_str());
      fprintf(f, "]");
    }
    fprintf(f, "},\"calls\":[");
    for (size_t i = 0; i < calls.size(); i++) fprintf(f, "%s%s", i ? "," : "", calls[i].c_str());
    fprintf(f, "],\"comms\":{"); first = true;
    if (tracecalls) for (auto& c : comms) { fprintf(f, "%s\"%d\":[", first ? "" : ",", c.first); first = false; for (size_t i = 0; i < c.second.size(); i++) fprintf(f, "%s%d", i ? "," : "", c.second[i]); fprintf(f, "]"); }
    fprintf(f, "}}\n"); fflush(f);
  }
};

int Sim::hangs = 0;
int main(int argc, char** argv)
{
  if (argc < 3) { fprintf(stderr, "usage: sim SCENARIOS OUT\n"); return 2; }
  signal(SIGPIPE, SIG_IGN);
  FILE* in = fopen(argv[1], "r"); FILE* out = fopen(argv[2], "w");
  if (!in || !out) { perror("open"); return 2; }
  // everything is read before processes are forked: one calling exit() would move the file offset
  char* line = 0; size_t cap = 0; Sim* s = nullptr; vector<string> input;
  while (getline(&line, &cap, in) > 0) input.push_back(line);
  fclose(in);
  for (string l : input) {
    while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
    if (l.compare(0, 5, "SCEN ") == 0) {
      s = new Sim(); char id[200]; unsigned long long sd; int tc = 0;
      if (sscanf(l.c_str(), "SCEN %199s %d %llu %d %d %d", id, &s->n, &sd, &s->mode, &tc, &s->extra) < 4) { fprintf(stderr, "bad: %s\n", l.c_str()); return 2; }
      s->id = id; s->seed = sd; s->tracecalls = tc;
    } else if (l.compare(0, 4, "ENV ") == 0) {
      size_t sp = l.find(' ', 4); s->env.push_back({l.substr(4, sp - 4), l.substr(sp + 1)});
    } else if (l == "END") { s->run(); s->out(out); delete s; s = nullptr; }
    else if (s) s->lines.push_back(l);
  }
  fclose(out);
  return 0;
}
