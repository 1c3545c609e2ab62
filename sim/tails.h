// Tailing consumers of a live stream: one over each parser of the library.
// Bytes are appended to `view` as they arrive; Step() lets the parser go as far
// as it can.
#ifndef SIM_TAILS_H_
#define SIM_TAILS_H_
#include "mux.h"
#include "webm/callback.h"
#include "webm/reader.h"
#include "webm/status.h"
#include "webm/webm_parser.h"

namespace sim {

struct SeenFrame {
  uint64_t track = 0; int64_t tc = 0; int key = -1;
  uint64_t len = 0, hash = 0;
  bool has_add = false; uint64_t add_id = 0; Bytes add;
  bool has_discard = false; int64_t discard = 0;
  bool has_dur = false; uint64_t dur = 0;
};

struct Tail {
  virtual ~Tail() {}
  virtual void Step() = 0;
  virtual const char* Name() const = 0;
  Bytes view;
  bool closed = false;
  bool done = false;      // end of the document was reported
  bool failed = false;    // a status that is neither progress nor "wait"
  long long status = 0;
  std::vector<SeenFrame> seen;
  uint64_t scale = 0; bool has_info = false;
  std::vector<uint64_t> tracks;
  uint64_t max_read = ~0ULL;   // bytes per read (webm_parser)
  uint64_t steps = 0;
  uint64_t Digest() const;     // of everything observed so far
};

std::unique_ptr<Tail> MakeWTail(bool seeked);
// style 0: GetFirst/GetNext, 1: GetEntry+Parse
std::unique_ptr<Tail> MakeMTail(int style);

}  // namespace sim
#endif
