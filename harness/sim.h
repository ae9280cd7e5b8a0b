#ifndef SIM_H
#define SIM_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int dummy; } ScenarioC;
int laikvm_main(int rank, int n, int nlines, const char** lines);
#ifdef __cplusplus
}
#endif
#endif
