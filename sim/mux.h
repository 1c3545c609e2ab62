// Muxer workloads: a plan is drawn from the seed, executed against the real
// mkvmuxer::Segment over a simulated writer, and judged from the bytes.
#ifndef SIM_MUX_H_
#define SIM_MUX_H_
#include "core.h"
#include "ebml.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvparser/mkvparser.h"

namespace sim {

struct WFaults {
  uint64_t fail_write = 0, fail_seek = 0;  // 1-based, 0 = never
  bool sticky = false, torn = false;
  uint64_t capacity = ~0ULL;
  int32_t code = -1;
};

class SimWriter : public mkvmuxer::IMkvWriter {
 public:
  explicit SimWriter(bool seekable) : seekable_(seekable) {}
  mkvmuxer::int32 Write(const void* buf, mkvmuxer::uint32 len) override;
  mkvmuxer::int64 Position() const override { return pos_; }
  mkvmuxer::int32 Position(mkvmuxer::int64 position) override;
  bool Seekable() const override { return seekable_; }
  void ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 position) override;
  struct Rec { uint64_t pos; uint64_t off; uint32_t len; };
  Bytes Replay(uint64_t nbytes) const;     // content after the first nbytes written
  Bytes data;
  WFaults f;
  bool log = false;
  std::vector<Rec> recs; Bytes logged;
  uint64_t writes = 0, seeks = 0, faults = 0, overwrites = 0;
  std::vector<std::pair<uint64_t, uint64_t>> notified;  // id, position
 private:
  bool seekable_; int64_t pos_ = 0;
};

class SimReader : public mkvparser::IMkvReader {
 public:
  explicit SimReader(const Bytes* d) : d_(d), avail(d->size()) {}
  int Read(long long pos, long len, unsigned char* buf) override;
  int Length(long long* total, long long* available) override;
  const Bytes* d_;
  uint64_t avail;
  bool total_known = true;
  uint64_t fail_read = 0; bool sticky = false;   // 1-based
  uint64_t reads = 0, faults = 0, short_reads = 0;
};

struct TrackPlan {
  int kind = 0;  // 0 video 1 audio 2 text
  int num_arg = 0; uint64_t number = 0;
  std::string codec, name, lang;
  Bytes priv;
  uint64_t codec_delay = 0, preroll = 0, default_dur = 0, max_add_id = 0, uid = 0;
  bool enc = false; Bytes enc_key;
  uint64_t w = 16, h = 16, dw = 0, dh = 0, pw = 0, ph = 0, cl = 0, cr = 0, ct = 0, cb = 0, stereo = 0, alpha = 0;
  std::string cspace;
  double fps = 0;
  bool colour = false; uint64_t cv[13];
  bool mastering = false; float lum_max = 0, lum_min = 0; bool has_lum_max = false, has_lum_min = false; bool chroma[4]; float cx[4], cy[4];
  bool proj = false; int ptype = 0; float yaw = 0, pitch = 0, roll = 0; Bytes ppriv;
  int rate = 44100, channels = 1; uint64_t depth = 0;
};
enum OpKind { kOpFrame, kOpForce, kOpBadTs, kOpBadTrack, kOpEmpty, kOpNull };
struct OpPlan {
  OpKind kind = kOpFrame; int track = 0; uint64_t ts = 0; bool key = false;
  uint64_t seed = 0; uint32_t len = 0;
  int api = 0;   // 0 AddFrame 1 +additional 2 +discard 3 AddMetadata 4 generic
  bool has_add = false; uint32_t add_len = 0; uint64_t add_id = 0;
  int64_t discard = 0; uint64_t dur = 0;
};
struct DisplayPlan { std::string title, lang, country; };
struct ChapterPlan { std::string id; uint64_t uid, start, end; std::vector<DisplayPlan> disp; };
struct MuxPlan {
  bool live = false, seekable = true, chunking = false;
  uint64_t scale = 1000000; std::string app, muxapp; bool has_date = false; int64_t date = 0;
  double set_duration = 0;
  bool output_cues = true, accurate = false, fixed_tc = false, estimate = false, cue_blocknum = true, cues_first = false;
  int cues_track = -1;
  bool set_max_dur = false; uint64_t max_dur = 0, max_size = 0;
  std::vector<TrackPlan> tracks;
  std::vector<ChapterPlan> chapters;
  std::vector<std::vector<std::pair<std::string, std::string>>> tags;
  std::vector<OpPlan> ops;
  bool finalize = true;
  bool has_video = false;
  bool wide = false;       // may contain time gaps the muxer is free to refuse
  bool disorder = false;   // may contain accepted out-of-order timestamps
};
struct MuxOpts { int max_ops = 60; bool allow_bad = true, allow_chunking = false, allow_live = true, allow_nonseek = true, allow_meta = true, allow_wide = true, allow_disorder = true; };
MuxPlan DrawMuxPlan(const MuxOpts& o);

struct MuxRun {
  const MuxPlan* plan; SimWriter* w;
  mkvmuxer::Segment* seg = nullptr;
  std::vector<uint64_t> numbers;          // track numbers
  std::vector<const OpPlan*> accepted;
  std::vector<uint64_t> accepted_track;
  bool setup_ok = false, all_ok = true;   // all_ok: every call that should succeed did
  std::string first_fail;
  std::string chunk_base;
  MuxRun(const MuxPlan* p, SimWriter* w) : plan(p), w(w) {}
  ~MuxRun() { Destroy(); }
  bool Setup();
  bool Op(const OpPlan& o);               // returns the library's answer
  bool Finalize();
  bool RunAll(bool strict, const char* key);  // setup, ops, finalize
  void Destroy();
};
const OpPlan* AsFrame(const OpPlan& o);
Bytes OpData(const OpPlan& o);
Bytes OpAdd(const OpPlan& o);

// Judges; call Fail() with the key prefix on a violation.
void JudgeFrames(const MuxRun& r, const Bytes& b, const FileView& v, const char* key);
void JudgeMeta(const MuxRun& r, const Bytes& b, const FileView& v, const char* key);
void JudgeStructure(const MuxRun& r, const Bytes& b, const FileView& v, const char* key, bool cues_before);
void JudgeParserReadback(const MuxRun& r, const Bytes& b, const FileView& v, const char* key);
FileView MustView(const Bytes& b, const char* key);

}  // namespace sim
#endif
