// The mkvmuxer_sample program with its temporary file on the simulated disk.
#include <string>
namespace libwebm { std::string SimTempFileName() { return "/sim/temp.webm"; } }
#include "common/file_util.h"
#define GetTempFileName SimTempFileName
#define main mkvmuxer_sample_main
#include "mkvmuxer_sample.cc"
