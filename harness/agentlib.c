#include "agent.h"
AGENT(0, agent_init)
