// Agents whose failures are put in by the interpreter. Agent functions know nothing about which
// agent they belong to, so there is one set of functions per agent.
#include "laik.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct { int kind, n, inits, gets, wrong, detached; char q[64][MAX_UID_LENGTH]; } AgCtl;
enum { AG_FT, AG_FLAG, AG_DEFAULT, AG_PROF };

#define AGENT(K, INIT) \
static AgCtl* ctl##K; static char mem##K[sizeof(Laik_Ft_Agent) + sizeof(Laik_Profiling_Agent)]; \
static void get##K(int* n, node_uid_t* r) { ctl##K->gets++; *n = ctl##K->n; for (int i = 0; i < ctl##K->n; i++) memcpy(r[i].uid, ctl##K->q[i], MAX_UID_LENGTH); ctl##K->n = 0; } \
static int peek##K(void) { return ctl##K->kind == AG_FLAG ? ctl##K->n > 0 : ctl##K->n; } \
static void wrongGet##K(int* n, node_uid_t* r) { ctl##K->wrong++; (void) n; (void) r; } \
static int wrongPeek##K(void) { ctl##K->wrong++; return 0; } \
static void detach##K(void) { ctl##K->detached++; } \
static void reset##K(void) { ctl##K->wrong++; } \
Laik_Agent* INIT(int argc, char** argv) { \
  if (argc != 2 || strcmp(argv[1], "agent argument")) return 0; \
  ctl##K = (AgCtl*) strtoull(argv[0], 0, 16); ctl##K->inits++; \
  Laik_Ft_Agent* a = (Laik_Ft_Agent*) mem##K; int ft = ctl##K->kind == AG_FT || ctl##K->kind == AG_FLAG; \
  memset(mem##K, 0, sizeof(mem##K)); \
  a->base.id = K; a->base.name = "agent"; a->base.isAlive = a->base.isInitialized = 1; \
  a->base.type = ft ? LAIK_AGENT_FT : ctl##K->kind == AG_PROF ? LAIK_AGENT_PROFILING : LAIK_AGENT_DEFAULT; \
  a->base.detach = detach##K; a->base.reset = reset##K; \
  a->getfail = ft ? get##K : wrongGet##K; a->peekfail = ft ? peek##K : wrongPeek##K; \
  return &a->base; }
