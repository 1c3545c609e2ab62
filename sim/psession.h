// A client of the pull parser (mkvparser) driven against a document whose
// bytes arrive over time and whose reads may fail.
#ifndef SIM_PSESSION_H_
#define SIM_PSESSION_H_
#include "mux.h"
#include "pdoc.h"

namespace sim {

struct PSession {
  const PDoc& d;
  SimReader rd;
  std::string K;              // key prefix
  bool tolerant = false;      // an error result ends the session instead of failing
  bool growing = false;       // bytes still arrive
  bool close_total = false;   // total length unknown until everything arrived
  uint64_t step_max = 64;
  mkvparser::EBMLHeader* hdr = nullptr;
  mkvparser::Segment* seg = nullptr;
  long long hpos = 0;
  bool err = false; std::string err_at; long long err_code = 0;
  uint64_t need_more = 0;     // calls that had to wait
  std::vector<std::string> meta;
  size_t blocks_seen = 0, cues_seen = 0;
  bool truncated = false;     // the file ends before the document does
  bool retry_errors = false;  // cluster-level errors are retried a few times

  PSession(const PDoc& doc, const Bytes* bytes, const char* key) : d(doc), rd(bytes), K(key) {}
  ~PSession() { Destroy(); }
  void Destroy();
  // True when the caller should call again; false when the result is final.
  bool Wait(const char* what, long long st, bool underflow, long long need);
  bool Open();                // EBML header, segment, headers; checks metadata
  void Observe();
  void JudgeMeta(bool fault);
  // Reads every cluster and block in the given style.
  void ReadAll(int style);
  bool ReadCluster(const mkvparser::Cluster* c, size_t ci, int how);
  void CheckBlock(const mkvparser::Cluster* c, const mkvparser::BlockEntry* e, size_t bi);
  void ReadFrames(const mkvparser::Block* b, size_t bi);
  void LoadCues();
  void CheckCue(const mkvparser::CuePoint* cp, size_t i);
  void CheckClusterTimes(const mkvparser::Cluster* c, size_t ci);
  bool Error(const char* what, long long st);
};

}  // namespace sim
#endif
