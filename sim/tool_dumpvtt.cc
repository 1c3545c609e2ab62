#define main dumpvtt_main
#include "dumpvtt.cc"
