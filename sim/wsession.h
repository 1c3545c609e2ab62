// Drives the real webm::WebmParser with a simulated Reader and Callback.
#ifndef SIM_WSESSION_H_
#define SIM_WSESSION_H_
#include "wdoc.h"
#include "webm/callback.h"
#include "webm/reader.h"
#include "webm/status.h"
#include "webm/webm_parser.h"

namespace sim {

// Fault/schedule knobs of a session (probabilities are x/64).
struct Sched {
  int p_short = 0;      // short read / skip
  int p_block = 0;      // kWouldBlock
  int p_err = 0;        // transient reader error (positive code)
  int p_pause = 0;      // callback pauses (non-complete status)
  int p_partial = 0;    // callback consumes part of the data then pauses
  int p_swap = 0;       // swap parsers between feeds
  int p_throw = 0;      // reader/callback throws
  bool one_byte = false;
  bool fresh_objects = false;  // new Reader/Callback object for every Feed
  int p_arrive = 0;     // bytes arrive gradually (would-block at the frontier)
  bool default_consume = false; // use Callback's default consumption sometimes
  uint64_t max_faults = 200000;
};
Sched DrawSched(bool allow_err);

enum Judge { kJudgeSeq = 1, kJudgeVal = 2, kJudgeMeta = 4 };

struct Stream {              // the byte source; survives reader objects
  const Bytes* data;
  uint64_t base = 0;
  uint64_t pos = 0;          // next byte
  uint64_t avail = 0;        // bytes that have arrived
  uint64_t end = 0;          // EOF
  uint64_t reads = 0;
};

class Session {
 public:
  Session(const Bytes* data, uint64_t base, uint64_t start, const Sched& s, const SkipPlan& plan);
  ~Session();
  // Expected history to compare against in lockstep (may be null).
  const std::vector<REvent>* expect = nullptr;
  int judge = kJudgeSeq | kJudgeVal | kJudgeMeta;
  const char* key = "history";    // failure key prefix
  bool record = false;            // keep events in `events`
  std::vector<REvent> events;
  size_t seen = 0;                // events delivered
  Stream st;
  Sched sched;
  SkipPlan plan;
  uint64_t faults = 0;
  int32_t last_injected = 0;      // last non-complete status we returned
  bool threw = false;

  void DidSeek();
  // Repositions the byte source and tells the parser; restarts the comparison.
  void SeekTo(uint64_t pos);
  int32_t Feed();                 // one Feed() call; checks propagation
  // Feeds until completion, parse error or EOF with everything arrived.
  int32_t RunToEnd();
  uint64_t feeds = 0;
  webm::Reader* backing = nullptr;  // real adapter the bytes come from

  // --- used by the callback/reader objects
  void Deliver(REvent e);
  bool CheckRepeat(const REvent& e);
  bool MaybePause(const REvent& e, int32_t* code);
  Bytes capture;                  // bytes of the element being consumed
  uint64_t capture_expected = 0;  // bytes_remaining promised
  bool capturing = false;
  bool have_pending = false;
  REvent pending;
  std::unique_ptr<webm::WebmParser> parser;
  std::unique_ptr<webm::Reader> reader;
  std::unique_ptr<webm::Callback> callback;
};

Meta ToMeta(const webm::ElementMetadata& m);
}  // namespace sim
#endif
