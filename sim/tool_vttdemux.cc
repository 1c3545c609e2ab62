#define main vttdemux_main
#include "vttdemux.cc"
