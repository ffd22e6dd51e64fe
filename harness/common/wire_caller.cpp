// the solver program of the repository with its main loop as a function
#define main bpmpd_caller_main
#include WIRE_CALLER_SOURCE
