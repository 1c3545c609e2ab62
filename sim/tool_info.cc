#define main webm_info_main
#include "webm_info.cc"
