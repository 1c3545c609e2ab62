#define main mkvparser_sample_main
#include "mkvparser_sample.cc"
