// What a federate of the simulated federation (harness/fed) calls.
#ifndef FX_H
#define FX_H
void fx_log(int fed, const char* line);
#endif
