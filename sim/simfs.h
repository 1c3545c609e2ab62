// In-memory simulated disk behind fopen()/stat()/remove(). Paths that start
// with "/sim/" live here; stdio buffering above it is the real glibc code.
#ifndef SIM_SIMFS_H_
#define SIM_SIMFS_H_
#include <stdio.h>

#include "core.h"

namespace sim {

struct FsPlan {
  // 1-based index of the failing operation from the time the plan is set;
  // 0 = never. sticky: every later one fails too.
  uint64_t fail_write = 0, fail_read = 0, fail_seek = 0, fail_close = 0, fail_open = 0;
  bool sticky = false;
  uint64_t capacity = ~0ULL;   // disk full above this many bytes per file
  bool torn = false;           // a failing write stores a prefix first
  bool lossy_close = false;    // a failing close loses the end of the file
  int p_short_read = 0;        // /64
  bool no_seek = false;        // pipe-like
};

class SimFs {
 public:
  void Reset();
  void SetPlan(const FsPlan& p);     // restarts the operation counters
  bool Exists(const std::string& p) const { return files_.count(p) != 0; }
  Bytes Content(const std::string& p) const;
  void Put(const std::string& p, const Bytes& b);
  void Append(const std::string& p, const Bytes& b);
  FILE* Open(const char* path, const char* mode);
  bool Remove(const std::string& p);
  int open_handles = 0;
  uint64_t writes = 0, reads = 0, seeks = 0, closes = 0, opens = 0;
  uint64_t failed_writes = 0, failed_reads = 0, failed_seeks = 0, failed_closes = 0, failed_opens = 0;
  uint64_t Failures() const { return failed_writes + failed_reads + failed_seeks + failed_closes + failed_opens; }

  struct Inode { Bytes data; };
  struct Handle { SimFs* fs; std::shared_ptr<Inode> ino; uint64_t pos; bool append; bool wrote = false; };
  FsPlan plan;
  std::map<std::string, std::shared_ptr<Inode>> files_;
};
extern SimFs g_fs;

}  // namespace sim
#endif
