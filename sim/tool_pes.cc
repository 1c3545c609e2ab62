#define main webm2pes_main
#include "m2ts/webm2pes_main.cc"
#undef main
#define Usage Usage2
#define main webm2ts_main
#include "m2ts/vpxpes2ts_main.cc"
