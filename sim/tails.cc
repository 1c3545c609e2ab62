#include "tails.h"

#include <algorithm>

namespace sim {
typedef long long ll;
typedef unsigned long long ull;

uint64_t Tail::Digest() const {
  uint64_t h = Fnv(&status, sizeof status);
  auto a = [&](uint64_t x) { h = Fnv(&x, sizeof x, h); };
  a(done); a(failed); a(scale); a(has_info);
  for (auto t : tracks) a(t);
  for (auto& s : seen) { a(s.track); a((uint64_t)s.tc); a((uint64_t)s.key); a(s.len); a(s.hash); a(s.has_add); a(s.add_id); h = Fnv(s.add.data(), s.add.size(), h); a((uint64_t)s.discard); a(s.dur); }
  return h;
}

namespace {
class WTail : public Tail, public webm::Reader, public webm::Callback {
 public:
  explicit WTail(bool seeked) {
    LibScope ls;
    parser_.reset(new webm::WebmParser);
    if (seeked) parser_->DidSeek();
  }
  ~WTail() override { LibScope ls; parser_.reset(); }
  const char* Name() const override { return "webm_parser"; }
  void Step() override {
    if (done || failed) return;
    ++steps;
    SimSteps(1);
    webm::Status st;
    { LibScope ls; st = parser_->Feed(this, this); }
    status = st.code;
    if (st.code == webm::Status::kOkCompleted) done = true;
    else if (st.code != webm::Status::kWouldBlock && st.code != webm::Status::kOkPartial) failed = true;
  }

  // Reader
  webm::Status Read(std::size_t n, std::uint8_t* buf, std::uint64_t* got) override {
    HarnessScope hs;
    *got = 0;
    uint64_t left = view.size() - pos_;
    if (left == 0) return webm::Status(closed ? webm::Status::kEndOfFile : webm::Status::kWouldBlock);
    uint64_t k = std::min<uint64_t>({(uint64_t)n, left, max_read});
    memcpy(buf, view.data() + pos_, k);
    pos_ += k;
    *got = k;
    return webm::Status(k == n ? webm::Status::kOkCompleted : webm::Status::kOkPartial);
  }
  webm::Status Skip(std::uint64_t n, std::uint64_t* got) override {
    HarnessScope hs;
    *got = 0;
    uint64_t left = view.size() - pos_;
    if (left == 0) return webm::Status(closed ? webm::Status::kEndOfFile : webm::Status::kWouldBlock);
    uint64_t k = std::min<uint64_t>(n, left);
    pos_ += k;
    *got = k;
    return webm::Status(k == n ? webm::Status::kOkCompleted : webm::Status::kOkPartial);
  }
  std::uint64_t Position() const override { return pos_; }

  // Callback
  webm::Status OnInfo(const webm::ElementMetadata&, const webm::Info& i) override {
    HarnessScope hs;
    has_info = true;
    scale = i.timecode_scale.value();
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnTrackEntry(const webm::ElementMetadata&, const webm::TrackEntry& t) override {
    HarnessScope hs;
    tracks.push_back(t.track_number.value());
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnClusterBegin(const webm::ElementMetadata&, const webm::Cluster& c, webm::Action* a) override {
    HarnessScope hs;
    *a = webm::Action::kRead;
    cluster_tc_ = c.timecode.value();
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnSimpleBlockBegin(const webm::ElementMetadata&, const webm::SimpleBlock& b, webm::Action* a) override {
    HarnessScope hs;
    *a = webm::Action::kRead;
    cur_ = SeenFrame();
    cur_.track = b.track_number;
    cur_.tc = (int64_t)cluster_tc_ + b.timecode;
    cur_.key = b.is_key_frame;
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnBlockBegin(const webm::ElementMetadata&, const webm::Block& b, webm::Action* a) override {
    HarnessScope hs;
    *a = webm::Action::kRead;
    cur_ = SeenFrame();
    cur_.track = b.track_number;
    cur_.tc = (int64_t)cluster_tc_ + b.timecode;
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnFrame(const webm::FrameMetadata&, webm::Reader* r, std::uint64_t* left) override {
    while (*left > 0) {
      uint8_t buf[512];
      uint64_t got = 0;
      webm::Status st = r->Read((size_t)std::min<uint64_t>(*left, sizeof buf), buf, &got);
      *left -= got;
      { HarnessScope hs; data_.insert(data_.end(), buf, buf + got); }
      if (!st.ok()) return st;
    }
    HarnessScope hs;
    cur_.len = data_.size();
    cur_.hash = Fnv(data_.data(), data_.size());
    data_.clear();
    seen.push_back(cur_);
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnBlockGroupEnd(const webm::ElementMetadata&, const webm::BlockGroup& g) override {
    HarnessScope hs;
    if (seen.empty()) return webm::Status(webm::Status::kOkCompleted);
    SeenFrame& s = seen.back();
    s.key = g.references.empty();
    if (g.additions.is_present() && !g.additions.value().block_mores.empty()) {
      const webm::BlockMore& m = g.additions.value().block_mores[0].value();
      s.has_add = true; s.add_id = m.id.value(); s.add = m.data.value();
    }
    s.has_discard = g.discard_padding.is_present(); s.discard = g.discard_padding.value();
    s.has_dur = g.duration.is_present(); s.dur = g.duration.value();
    return webm::Status(webm::Status::kOkCompleted);
  }

 private:
  std::unique_ptr<webm::WebmParser> parser_;
  uint64_t pos_ = 0, cluster_tc_ = 0;
  SeenFrame cur_;
  Bytes data_;
};

template <typename T>
struct LibRet { T v; };
#define LIB(expr) ([&] { LibScope ls_; return (expr); }())

class MTail : public Tail {
 public:
  explicit MTail(int style) : rd_(&view), style_(style) { LibScope ls; hdr_ = new mkvparser::EBMLHeader; }
  ~MTail() override { LibScope ls; delete seg_; delete hdr_; }
  const char* Name() const override { return "mkvparser"; }
  // True when the caller has to come back with more data.
  bool Wait(ll st, bool underflow) {
    status = st;
    if (underflow && !closed) return true;
    failed = true;
    return true;
  }
  void Step() override {
    if (done || failed) return;
    ++steps;
    SimSteps(1);
    rd_.avail = view.size();
    rd_.total_known = closed;
    if (state_ == 0) {
      ll st = LIB(hdr_->Parse(&rd_, pos_));
      if (st != 0) { Wait(st, st > 0 || st == mkvparser::E_BUFFER_NOT_FULL); return; }
      state_ = 1;
    }
    if (state_ == 1) {
      ll st = LIB(mkvparser::Segment::CreateInstance(&rd_, pos_, seg_));
      if (st != 0) { Wait(st, st > 0 || st == mkvparser::E_BUFFER_NOT_FULL); return; }
      state_ = 2;
    }
    if (state_ == 2) {
      ll st = LIB(seg_->ParseHeaders());
      if (st != 0) { Wait(st, st > 0 || st == mkvparser::E_BUFFER_NOT_FULL); return; }
      if (seg_->GetInfo()) { has_info = true; scale = (uint64_t)seg_->GetInfo()->GetTimeCodeScale(); }
      if (const mkvparser::Tracks* t = seg_->GetTracks())
        for (unsigned long i = 0; i < t->GetTracksCount(); ++i)
          if (t->GetTrackByIndex(i)) tracks.push_back((uint64_t)t->GetTrackByIndex(i)->GetNumber());
      state_ = 3;
    }
    for (;;) {
      if (!cluster_) {
        ll p = -1; long l = 0;
        long st = LIB(seg_->LoadCluster(p, l));
        if (st < 0) { Wait(st, st == mkvparser::E_BUFFER_NOT_FULL); return; }
        if (st > 0) { status = st; done = true; return; }
        cluster_ = seg_->GetLast();
        entry_ = nullptr;
        n_ = 0;
        if (!cluster_ || cluster_->EOS()) Fail("live:cluster", "LoadCluster reported a cluster but there is none");
      }
      const mkvparser::BlockEntry* e = pending_;
      if (e) {
        // reported before, its bytes had not arrived
      } else if (style_ == 0) {
        long st = entry_ ? LIB(cluster_->GetNext(entry_, e)) : LIB(cluster_->GetFirst(e));
        if (st < 0) { Wait(st, st == mkvparser::E_BUFFER_NOT_FULL); return; }
        if (!e || e->EOS()) { cluster_ = nullptr; continue; }
        entry_ = e;
      } else {
        long r = LIB(cluster_->GetEntry(n_, e));
        if (r == 0) { cluster_ = nullptr; continue; }
        if (r < 0) {
          ll p = -1; long l = -1;
          long st = LIB(cluster_->Parse(p, l));
          if (st < 0) { Wait(st, st == mkvparser::E_BUFFER_NOT_FULL); return; }
          if (st == 1) cluster_ = nullptr;
          continue;
        }
        if (!e) Fail("live:entry", "Cluster::GetEntry found an entry but returned none");
      }
      const mkvparser::Block* b = e->GetBlock();
      SeenFrame s;
      s.track = (uint64_t)b->GetTrackNumber();
      s.tc = b->GetTimeCode(cluster_);
      s.key = b->IsKey();
      s.has_discard = b->GetDiscardPadding() != 0; s.discard = b->GetDiscardPadding();
      if (b->GetFrameCount() != 1) Fail("live:frames", "a block of one frame has %d", b->GetFrameCount());
      const mkvparser::Block::Frame& f = b->GetFrame(0);
      Bytes d(f.len > 0 ? f.len : 0);
      long st = LIB(f.Read(&rd_, d.data()));
      if (st > 0 && !closed && f.pos + f.len > (ll)view.size()) { pending_ = e; status = st; return; }
      if (st < 0 && closed && f.pos + f.len > (ll)view.size()) { status = st; failed = true; return; }
      if (st != 0) Fail("live:frame-read", "reading a reported frame of %ld bytes at %lld fails (%ld), %zu bytes have arrived", f.len, f.pos, st, view.size());
      s.len = d.size();
      s.hash = Fnv(d.data(), d.size());
      seen.push_back(s);
      pending_ = nullptr;
      ++n_;
    }
  }

 private:
  SimReader rd_;
  int style_, state_ = 0;
  mkvparser::EBMLHeader* hdr_;
  mkvparser::Segment* seg_ = nullptr;
  ll pos_ = 0;
  const mkvparser::Cluster* cluster_ = nullptr;
  const mkvparser::BlockEntry* entry_ = nullptr;
  const mkvparser::BlockEntry* pending_ = nullptr;
  long n_ = 0;
};
}  // namespace

std::unique_ptr<Tail> MakeWTail(bool seeked) { return std::unique_ptr<Tail>(new WTail(seeked)); }
std::unique_ptr<Tail> MakeMTail(int style) { return std::unique_ptr<Tail>(new MTail(style)); }

}  // namespace sim
