#include "wsession.h"

#include <algorithm>
#include <stdexcept>

namespace sim {
using namespace webm;

Meta ToMeta(const ElementMetadata& m) {
  return Meta{(uint32_t)m.id, m.header_size, m.size, m.position};
}

// ------------------------------------------------------ rendering the DOM --
static std::string V(uint64_t v) { return RU(v); }
static std::string V(int64_t v) { return RS(v); }
static std::string V(bool v) { return RU(v); }
static std::string V(double v) { return RD(v); }
static std::string V(Id v) { return RU((uint32_t)v); }
static std::string V(const std::string& s) { return RBytes(s.data(), s.size()); }
static std::string V(const std::vector<uint8_t>& s) { return RBytes(s.data(), s.size()); }
template <typename E, typename = typename std::enable_if<std::is_enum<E>::value && !std::is_same<E, Id>::value>::type>
static std::string V(E v) { return RU((uint64_t)v); }

static std::string BlkStr(const Block& b) {
  return Fmt("{track=%llu;n=%d;tc=%d;lacing=%d;vis=%d", (unsigned long long)b.track_number, b.num_frames,
             (int)b.timecode, (int)b.lacing, (int)b.is_visible);
}
static std::string V(const SimpleBlock& b) { return BlkStr(b) + Fmt(";key=%d;disc=%d}", b.is_key_frame, b.is_discardable); }
static std::string V(const Block& b) { return BlkStr(b) + "}"; }
static std::string V(const VirtualBlock& b) {
  return Fmt("{track=%llu;tc=%d}", (unsigned long long)b.track_number, (int)b.timecode);
}
#define DECL(X) static std::string V(const X&);
DECL(BlockMore) DECL(BlockAdditions) DECL(TimeSlice) DECL(Slices) DECL(BlockGroup) DECL(Cluster) DECL(Ebml)
DECL(webm::Info) DECL(webm::Seek) DECL(Audio) DECL(MasteringMetadata) DECL(Colour) DECL(Projection) DECL(Video)
DECL(ContentEncAesSettings) DECL(ContentEncryption) DECL(ContentEncoding) DECL(ContentEncodings) DECL(TrackEntry)
DECL(CueTrackPositions) DECL(CuePoint) DECL(ChapterDisplay) DECL(ChapterAtom) DECL(EditionEntry) DECL(SimpleTag)
DECL(Targets) DECL(Tag)

template <typename X>
static std::string E1(const Element<X>& e) { return (e.is_present() ? "P:" : "D:") + V(e.value()); }
static std::string E1(const Element<Block>& e) { return e.is_present() ? "P:" + V(e.value()) : "D:{default}"; }
static std::string E1(const Element<VirtualBlock>& e) { return e.is_present() ? "P:" + V(e.value()) : "D:{default}"; }
template <typename X>
static void F1(std::string* s, const char* n, const Element<X>& e) { *s += n; *s += '='; *s += E1(e); *s += ';'; }
template <typename X>
static void F1(std::string* s, const char* n, const std::vector<Element<X>>& v) {
  *s += n; *s += "=[";
  for (auto& e : v) { *s += E1(e); *s += ','; }
  *s += "];";
}
#define BEGIN(X) static std::string V(const X& x) { std::string s = "{";
#define FLD(n, m) F1(&s, n, x.m);
#define END return s + "}"; }
BEGIN(BlockMore) FLD("id", id) FLD("data", data) END
BEGIN(BlockAdditions) FLD("block_mores", block_mores) END
BEGIN(TimeSlice) FLD("lace_number", lace_number) END
BEGIN(Slices) FLD("slices", slices) END
BEGIN(BlockGroup) FLD("block", block) FLD("virtual_block", virtual_block) FLD("additions", additions)
  FLD("duration", duration) FLD("references", references) FLD("discard_padding", discard_padding) FLD("slices", slices) END
BEGIN(Cluster) FLD("timecode", timecode) FLD("previous_size", previous_size) FLD("simple_blocks", simple_blocks)
  FLD("block_groups", block_groups) END
BEGIN(Ebml) FLD("ebml_version", ebml_version) FLD("ebml_read_version", ebml_read_version)
  FLD("ebml_max_id_length", ebml_max_id_length) FLD("ebml_max_size_length", ebml_max_size_length) FLD("doc_type", doc_type)
  FLD("doc_type_version", doc_type_version) FLD("doc_type_read_version", doc_type_read_version) END
BEGIN(webm::Info) FLD("timecode_scale", timecode_scale) FLD("duration", duration) FLD("date_utc", date_utc) FLD("title", title)
  FLD("muxing_app", muxing_app) FLD("writing_app", writing_app) END
BEGIN(webm::Seek) FLD("id", id) FLD("position", position) END
BEGIN(Audio) FLD("sampling_frequency", sampling_frequency) FLD("output_frequency", output_frequency)
  FLD("channels", channels) FLD("bit_depth", bit_depth) END
BEGIN(MasteringMetadata) FLD("rx", primary_r_chromaticity_x) FLD("ry", primary_r_chromaticity_y)
  FLD("gx", primary_g_chromaticity_x) FLD("gy", primary_g_chromaticity_y) FLD("bx", primary_b_chromaticity_x)
  FLD("by", primary_b_chromaticity_y) FLD("wx", white_point_chromaticity_x) FLD("wy", white_point_chromaticity_y)
  FLD("lmax", luminance_max) FLD("lmin", luminance_min) END
BEGIN(Colour) FLD("matrix_coefficients", matrix_coefficients) FLD("bits_per_channel", bits_per_channel)
  FLD("chroma_subsampling_x", chroma_subsampling_x) FLD("chroma_subsampling_y", chroma_subsampling_y)
  FLD("cb_subsampling_x", cb_subsampling_x) FLD("cb_subsampling_y", cb_subsampling_y)
  FLD("chroma_siting_x", chroma_siting_x) FLD("chroma_siting_y", chroma_siting_y) FLD("range", range)
  FLD("transfer_characteristics", transfer_characteristics) FLD("primaries", primaries) FLD("max_cll", max_cll)
  FLD("max_fall", max_fall) FLD("mastering_metadata", mastering_metadata) END
BEGIN(Projection) FLD("type", type) FLD("private", projection_private) FLD("yaw", pose_yaw) FLD("pitch", pose_pitch)
  FLD("roll", pose_roll) END
BEGIN(Video) FLD("interlaced", interlaced) FLD("stereo_mode", stereo_mode) FLD("alpha_mode", alpha_mode)
  FLD("pixel_width", pixel_width) FLD("pixel_height", pixel_height) FLD("pixel_crop_bottom", pixel_crop_bottom)
  FLD("pixel_crop_top", pixel_crop_top) FLD("pixel_crop_left", pixel_crop_left) FLD("pixel_crop_right", pixel_crop_right)
  FLD("display_width", display_width) FLD("display_height", display_height) FLD("display_unit", display_unit)
  FLD("aspect_ratio_type", aspect_ratio_type) FLD("frame_rate", frame_rate) FLD("colour", colour)
  FLD("projection", projection) END
BEGIN(ContentEncAesSettings) FLD("cipher_mode", aes_settings_cipher_mode) END
BEGIN(ContentEncryption) FLD("algorithm", algorithm) FLD("key_id", key_id) FLD("aes_settings", aes_settings) END
BEGIN(ContentEncoding) FLD("order", order) FLD("scope", scope) FLD("type", type) FLD("encryption", encryption) END
BEGIN(ContentEncodings) FLD("encodings", encodings) END
BEGIN(TrackEntry) FLD("track_number", track_number) FLD("track_uid", track_uid) FLD("track_type", track_type)
  FLD("is_enabled", is_enabled) FLD("is_default", is_default) FLD("is_forced", is_forced) FLD("uses_lacing", uses_lacing)
  FLD("default_duration", default_duration) FLD("name", name) FLD("language", language) FLD("codec_id", codec_id)
  FLD("codec_private", codec_private) FLD("codec_name", codec_name) FLD("codec_delay", codec_delay)
  FLD("seek_pre_roll", seek_pre_roll) FLD("video", video) FLD("audio", audio) FLD("content_encodings", content_encodings) END
BEGIN(CueTrackPositions) FLD("track", track) FLD("cluster_position", cluster_position)
  FLD("relative_position", relative_position) FLD("duration", duration) FLD("block_number", block_number) END
BEGIN(CuePoint) FLD("time", time) FLD("positions", cue_track_positions) END
BEGIN(ChapterDisplay) FLD("string", string) FLD("languages", languages) FLD("countries", countries) END
BEGIN(ChapterAtom) FLD("uid", uid) FLD("string_uid", string_uid) FLD("time_start", time_start) FLD("time_end", time_end)
  FLD("displays", displays) FLD("atoms", atoms) END
BEGIN(EditionEntry) FLD("atoms", atoms) END
BEGIN(SimpleTag) FLD("name", name) FLD("language", language) FLD("is_default", is_default) FLD("string", string)
  FLD("binary", binary) FLD("tags", tags) END
BEGIN(Targets) FLD("type_value", type_value) FLD("type", type) FLD("track_uids", track_uids) END
BEGIN(Tag) FLD("targets", targets) FLD("tags", tags) END

// ----------------------------------------------------------------- reader --
Sched DrawSched(bool allow_err) {
  Sched s;
  int mode = (int)Draw(6, "sched.mode");
  if (mode >= 1) s.p_short = (int)Range(1, 60, "sched.short");
  if (mode >= 2) s.p_block = (int)Draw(24, "sched.block");
  if (mode >= 3) { s.p_pause = (int)Draw(24, "sched.pause"); s.p_partial = (int)Draw(40, "sched.partial"); }
  if (mode >= 4) s.p_swap = (int)Draw(16, "sched.swap");
  s.one_byte = mode == 5 && Draw(2, "sched.onebyte");
  s.p_arrive = (int)Draw(2, "sched.arrive");
  s.fresh_objects = Draw(2, "sched.fresh");
  s.default_consume = Draw(2, "sched.defcons");
  if (allow_err && Draw(2, "sched.err?")) s.p_err = (int)Range(1, 16, "sched.err");
  return s;
}
static bool P64(int p, const char* l) { return p > 0 && Chance(p, 64, l); }

class WSimReader : public Reader {
 public:
  explicit WSimReader(Session* s) : s_(s) {}
  Status Read(std::size_t n, std::uint8_t* buf, std::uint64_t* got) override {
    return Io(n, buf, got, false);
  }
  Status Skip(std::uint64_t n, std::uint64_t* got) override { return Io(n, nullptr, got, true); }
  std::uint64_t Position() const override { return s_->st.base + s_->st.pos; }

 private:
  Status Io(uint64_t n, uint8_t* buf, uint64_t* got, bool skip) {
    HarnessScope hs;
    Stream& st = s_->st;
    ++st.reads;
    SimSteps(1);
    if (!got || (!skip && !buf)) Fail("contract:null-argument", "null passed to Reader");
    if (n == 0) Fail("contract:zero-length-io", "%s of 0 bytes requested at position %llu", skip ? "Skip" : "Read",
                     (unsigned long long)(st.base + st.pos));
    *got = 0;
    if (st.reads > 4000000) Fail("liveness:reader-calls", "more than 4M reader calls");
    if (s_->faults < s_->sched.max_faults) {
      if (P64(s_->sched.p_throw, "rd.throw")) {
        ++s_->faults; FaultCount("reader_throw"); s_->threw = true;
        throw std::runtime_error("injected reader exception");
      }
      if (P64(s_->sched.p_block, "rd.block")) {
        ++s_->faults; FaultCount("would_block");
        s_->last_injected = Status::kWouldBlock;
        return Status(Status::kWouldBlock);
      }
      if (P64(s_->sched.p_err, "rd.err")) {
        ++s_->faults; FaultCount("transient_reader_error");
        s_->last_injected = 7 + (int)Draw(3, "rd.errcode");
        return Status((int32_t)s_->last_injected);
      }
    }
    if (s_->backing) return Adapter(n, buf, got, skip);
    uint64_t lim = std::min(st.avail, st.end);
    if (st.pos >= lim) {
      s_->last_injected = lim >= st.end ? Status::kEndOfFile : Status::kWouldBlock;
      return Status((int32_t)s_->last_injected);
    }
    uint64_t m = std::min<uint64_t>(n, lim - st.pos);
    if (m > 1 && s_->sched.one_byte) m = 1;
    else if (m > 1 && P64(s_->sched.p_short, "rd.short")) { m = 1 + Draw(m - 1, "rd.n"); FaultCount("short_read"); }
    const uint8_t* src = s_->st.data->data() + st.pos;
    if (buf) memcpy(buf, src, m);
    if (s_->capturing) s_->capture.insert(s_->capture.end(), src, src + m);
    st.pos += m;
    *got = m;
    return Status(m == n ? Status::kOkCompleted : Status::kOkPartial);
  }
  // The bytes come from one of the library's own Reader adapters.
  Status Adapter(uint64_t n, uint8_t* buf, uint64_t* got, bool skip) {
    Stream& st = s_->st;
    Status r;
    {
      LibScope ls;
      r = skip ? s_->backing->Skip(n, got) : s_->backing->Read((size_t)n, buf, got);
    }
    uint64_t left = st.end > st.pos ? st.end - st.pos : 0;
    if (*got > n || *got > left)
      Fail("adapter:overrun", "%s(%llu) reported %llu bytes with %llu left", skip ? "Skip" : "Read", (unsigned long long)n,
           (unsigned long long)*got, (unsigned long long)left);
    bool shape = r.code == 0 ? *got == n : r.code == Status::kOkPartial ? *got > 0 && *got < n : *got == 0;
    if (!shape) Fail("adapter:status", "%s(%llu) -> %d with %llu bytes", skip ? "Skip" : "Read", (unsigned long long)n, r.code, (unsigned long long)*got);
    if (buf && *got && memcmp(buf, st.data->data() + st.pos, *got)) Fail("adapter:bytes", "bytes at %llu differ from the source", (unsigned long long)st.pos);
    if (s_->capturing) s_->capture.insert(s_->capture.end(), st.data->begin() + st.pos, st.data->begin() + st.pos + *got);
    st.pos += *got;
    if (!r.ok()) s_->last_injected = r.code;
    if (s_->backing->Position() != st.base + st.pos)
      Fail("adapter:position", "position %llu, expected %llu", (unsigned long long)s_->backing->Position(), (unsigned long long)(st.base + st.pos));
    return r;
  }
  Session* s_;
};

// --------------------------------------------------------------- callback --
class SimCallback : public Callback {
 public:
  explicit SimCallback(Session* s) : s_(s) {}
  Status OnElementBegin(const ElementMetadata& m, Action* a) override { return Act(K::kElementBegin, m, "", a); }
  Status OnUnknownElement(const ElementMetadata& m, Reader* r, uint64_t* n) override {
    return Consume(K::kUnknown, m, m.size, 0, r, n, [&] { return Callback::OnUnknownElement(m, r, n); });
  }
  Status OnEbml(const ElementMetadata& m, const Ebml& v) override { return Plain(K::kEbml, m, v); }
  Status OnVoid(const ElementMetadata& m, Reader* r, uint64_t* n) override {
    return Consume(K::kVoid, m, m.size, 0, r, n, [&] { return Callback::OnVoid(m, r, n); });
  }
  Status OnSegmentBegin(const ElementMetadata& m, Action* a) override { return Act(K::kSegmentBegin, m, "", a); }
  Status OnSeek(const ElementMetadata& m, const webm::Seek& v) override { return Plain(K::kSeek, m, v); }
  Status OnInfo(const ElementMetadata& m, const webm::Info& v) override { return Plain(K::kInfo, m, v); }
  Status OnClusterBegin(const ElementMetadata& m, const Cluster& c, Action* a) override {
    HarnessScope hs;
    return Act(K::kClusterBegin, m, V(c), a);
  }
  Status OnSimpleBlockBegin(const ElementMetadata& m, const SimpleBlock& b, Action* a) override {
    HarnessScope hs;
    return Act(K::kSimpleBlockBegin, m, V(b), a);
  }
  Status OnSimpleBlockEnd(const ElementMetadata& m, const SimpleBlock& b) override { return Plain(K::kSimpleBlockEnd, m, b); }
  Status OnBlockGroupBegin(const ElementMetadata& m, Action* a) override { return Act(K::kBlockGroupBegin, m, "", a); }
  Status OnBlockBegin(const ElementMetadata& m, const Block& b, Action* a) override {
    HarnessScope hs;
    return Act(K::kBlockBegin, m, V(b), a);
  }
  Status OnBlockEnd(const ElementMetadata& m, const Block& b) override { return Plain(K::kBlockEnd, m, b); }
  Status OnBlockGroupEnd(const ElementMetadata& m, const BlockGroup& g) override { return Plain(K::kBlockGroupEnd, m, g); }
  Status OnFrame(const FrameMetadata& f, Reader* r, uint64_t* n) override {
    return Consume(K::kFrame, f.parent_element, f.size, f.position, r, n, [&] { return Callback::OnFrame(f, r, n); });
  }
  Status OnClusterEnd(const ElementMetadata& m, const Cluster& c) override { return Plain(K::kClusterEnd, m, c); }
  Status OnTrackEntry(const ElementMetadata& m, const TrackEntry& v) override { return Plain(K::kTrackEntry, m, v); }
  Status OnCuePoint(const ElementMetadata& m, const CuePoint& v) override { return Plain(K::kCuePoint, m, v); }
  Status OnEditionEntry(const ElementMetadata& m, const EditionEntry& v) override { return Plain(K::kEdition, m, v); }
  Status OnTag(const ElementMetadata& m, const Tag& v) override { return Plain(K::kTag, m, v); }
  Status OnSegmentEnd(const ElementMetadata& m) override {
    HarnessScope hs;
    REvent e; e.k = K::kSegmentEnd; e.m = ToMeta(m);
    int32_t code;
    if (s_->MaybePause(e, &code)) return Status(code);
    s_->Deliver(e);
    return Status(Status::kOkCompleted);
  }

 private:
  template <typename X>
  Status Plain(K k, const ElementMetadata& m, const X& v) {
    HarnessScope hs;
    REvent e; e.k = k; e.m = ToMeta(m); e.val = V(v);
    int32_t code;
    if (s_->MaybePause(e, &code)) return Status(code);
    s_->Deliver(std::move(e));
    return Status(Status::kOkCompleted);
  }
  Status Act(K k, const ElementMetadata& m, std::string v, Action* a) {
    HarnessScope hs;
    if (!a) Fail("contract:null-action", "null action pointer");
    REvent e; e.k = k; e.m = ToMeta(m); e.val = std::move(v);
    int32_t code;
    if (s_->MaybePause(e, &code)) return Status(code);
    *a = s_->plan.Skip(k, e.m) ? Action::kSkip : Action::kRead;
    s_->Deliver(std::move(e));
    return Status(Status::kOkCompleted);
  }
  template <typename Fn>
  Status Consume(K k, const ElementMetadata& m, uint64_t total, uint64_t fpos, Reader* r, uint64_t* n, Fn def) {
    HarnessScope hs;
    REvent e; e.k = k; e.m = ToMeta(m);
    if (k == K::kFrame) { e.fpos = fpos; e.fsize = total; }
    if (!r || !n) Fail("contract:null-argument", "null reader/bytes_remaining");
    if (!s_->capturing && s_->capture.empty() && !s_->have_pending) s_->capture_expected = total;
    uint64_t consumed_before = s_->capture.size();
    if (*n != total - consumed_before)
      Fail(std::string(s_->key) + ":bytes-remaining", "%s: bytes_remaining=%llu but %llu of %llu were consumed",
           EventStr(e).c_str(), (unsigned long long)*n, (unsigned long long)consumed_before, (unsigned long long)total);
    int32_t code;
    if (s_->MaybePause(e, &code)) return Status(code);
    s_->capturing = true;
    struct Off { Session* s; ~Off() { s->capturing = false; } } off{s_};
    if (s_->sched.default_consume && Draw(2, "cb.default")) {
      HarnessScope hs2;
      Status st = def();
      if (!st.completed_ok()) { Pending(e); return st; }
      if (*n) Fail("contract:default-consume", "default consumption left %llu bytes", (unsigned long long)*n);
    } else {
      while (*n) {
        if (s_->faults < s_->sched.max_faults && P64(s_->sched.p_partial, "cb.partial")) {
          ++s_->faults;
          FaultCount("callback_partial_pause");
          Pending(e);
          s_->last_injected = 21;
          return Status(21);
        }
        uint64_t want = *n;
        if (want > 1 && P64(s_->sched.p_short, "cb.chunk")) want = 1 + Draw(want - 1, "cb.chunkn");
        if (want > 4096) want = 4096;
        uint64_t got = 0;
        Status st(Status::kOkCompleted);
        if (Draw(2, "cb.skip")) {
          st = r->Skip(want, &got);
        } else {
          Bytes buf(want);
          st = r->Read(want, buf.data(), &got);
        }
        *n -= got;
        if (!st.ok()) { Pending(e); return st; }
      }
    }
    e.val = RBytes(s_->capture.data(), s_->capture.size());
    s_->capture.clear();
    s_->have_pending = false;
    s_->Deliver(std::move(e));
    return Status(Status::kOkCompleted);
  }
  void Pending(const REvent& e) { s_->have_pending = true; s_->pending = e; }
  Session* s_;
};

Session::Session(const Bytes* data, uint64_t base, uint64_t start, const Sched& s, const SkipPlan& p)
    : sched(s), plan(p) {
  st.data = data;
  st.base = base;
  st.pos = start;
  st.avail = st.end = data->size();
  if (sched.p_arrive) st.avail = start;
  LibScope ls;
  parser.reset(new WebmParser);
}
Session::~Session() {}

bool Session::CheckRepeat(const REvent& e) {
  if (!have_pending) return true;
  have_pending = false;
  if (e.k != pending.k || !(e.m == pending.m) || e.fpos != pending.fpos || e.fsize != pending.fsize ||
      (e.val != pending.val))
    Fail(std::string(key) + ":resume", "after a pause in [%s] the parser resumed with [%s]", EventStr(pending).c_str(),
         EventStr(e).c_str());
  return true;
}
bool Session::MaybePause(const REvent& e, int32_t* code) {
  CheckRepeat(e);
  if (faults < sched.max_faults && P64(sched.p_throw, "cb.throw")) {
    ++faults; FaultCount("callback_throw");
    have_pending = true; pending = e; threw = true;
    throw std::runtime_error("injected callback exception");
  }
  if (faults >= sched.max_faults || !P64(sched.p_pause, "cb.pause")) return false;
  ++faults;
  FaultCount("callback_pause");
  static const int32_t codes[] = {Status::kWouldBlock, Status::kOkPartial, 5, Status::kSeekFailed};
  *code = codes[Draw(4, "cb.code")];
  have_pending = true;
  pending = e;
  last_injected = *code;
  return true;
}
void Session::Deliver(REvent e) {
  Ev("event %zu: %s", seen, EventStr(e).c_str());
  if (expect) {
    if (seen >= expect->size())
      Fail(std::string(key) + ":extra-event", "event %zu: unexpected [%s]; the document calls for %zu notifications", seen,
           EventStr(e).c_str(), expect->size());
    const REvent& x = (*expect)[seen];
    bool seq = x.k == e.k && x.m.id == e.m.id;
    bool val = x.val == e.val;
    bool meta = x.m == e.m && x.fpos == e.fpos && x.fsize == e.fsize;
    if ((judge & kJudgeSeq) && !seq)
      Fail(std::string(key) + ":sequence", "event %zu: got [%s] want [%s]", seen, EventStr(e).c_str(), EventStr(x).c_str());
    if ((judge & kJudgeVal) && !val)
      Fail(std::string(key) + ":value", "event %zu: got [%s] want [%s]", seen, EventStr(e).c_str(), EventStr(x).c_str());
    if ((judge & kJudgeMeta) && !meta)
      Fail(std::string(key) + ":metadata", "event %zu: got [%s] want [%s]", seen, EventStr(e).c_str(), EventStr(x).c_str());
  }
  ++seen;
  if (record) events.push_back(std::move(e));
}
void Session::DidSeek() {
  LibScope ls;
  parser->DidSeek();
}
void Session::SeekTo(uint64_t pos) {
  st.pos = pos;
  if (st.avail < pos) st.avail = pos;
  have_pending = false;
  capture.clear();
  seen = 0;
  FaultCount("seek");
  Ev("seek to %llu", (unsigned long long)pos);
  DidSeek();
}
int32_t Session::Feed() {
  ++feeds;
  if (feeds > 3000000) Fail("liveness:feeds", "more than 3M Feed calls");
  if (sched.fresh_objects || !reader) {
    reader.reset(new WSimReader(this));
    callback.reset(new SimCallback(this));
  }
  if (P64(sched.p_swap, "swap")) {
    FaultCount("parser_swap");
    LibScope ls;
    std::unique_ptr<WebmParser> other(new WebmParser);
    if (feeds & 1) other->Swap(parser.get());
    else swap(*other, *parser);
    parser.swap(other);
  }
  last_injected = 0;
  threw = false;
  int32_t code;
  {
    LibScope ls;
    code = parser->Feed(callback.get(), reader.get()).code;
  }
  Ev("feed -> %d pos=%llu", code, (unsigned long long)st.pos);
  if (sched.fresh_objects) { reader.reset(); callback.reset(); }
  bool parse_error = code <= -1025 && code >= -2048;
  if (code != Status::kOkCompleted && !parse_error && code != last_injected)
    Fail(std::string(key) + ":status", "Feed returned %d but the last reader/callback status was %d", code, last_injected);
  if (code != Status::kOkCompleted && !parse_error && last_injected == 0)
    Fail(std::string(key) + ":status", "Feed returned %d though nothing stopped it", code);
  return code;
}
int32_t Session::RunToEnd() {
  while (true) {
    int32_t code = Feed();
    if (code == Status::kOkCompleted || (code <= -1025 && code >= -2048)) return code;
    if (st.avail < st.end && st.pos >= st.avail) {
      st.avail = sched.p_arrive ? std::min(st.end, st.avail + 1 + Magnitude(400, "arrive")) : st.end;
      FaultCount("late_arrival");
      ++faults;
    }
    if (code == Status::kEndOfFile && st.pos >= st.end) return code;
  }
}
}  // namespace sim
