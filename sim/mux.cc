#include "mux.h"

#include <algorithm>
#include <cmath>

#include "simfs.h"

namespace sim {

// ---- simulated writer -------------------------------------------------------
mkvmuxer::int32 SimWriter::Write(const void* buf, mkvmuxer::uint32 len) {
  HarnessScope hs;
  ++writes;
  SimSteps(1);
  const uint8_t* p = static_cast<const uint8_t*>(buf);
  bool fail = f.fail_write && (writes == f.fail_write || (f.sticky && writes > f.fail_write));
  uint32_t n = len;
  if (!fail && (uint64_t)pos_ + len > f.capacity) {
    fail = true;
    n = (uint64_t)pos_ >= f.capacity ? 0 : (uint32_t)(f.capacity - pos_);
    FaultCount("disk_full");
  } else if (fail) {
    n = f.torn ? len / 2 : 0;
    FaultCount(f.torn ? "torn_write" : "write_error");
  }
  if (n) {
    if (log) {
      recs.push_back({(uint64_t)pos_, logged.size(), n});
      logged.insert(logged.end(), p, p + n);
    }
    if ((uint64_t)pos_ < data.size()) ++overwrites;
    if ((uint64_t)pos_ + n > data.size()) data.resize(pos_ + n);
    memcpy(data.data() + pos_, p, n);
    pos_ += n;
  }
  if (fail) { ++faults; Ev("write #%llu failed", (unsigned long long)writes); return f.code; }
  return 0;
}
mkvmuxer::int32 SimWriter::Position(mkvmuxer::int64 position) {
  HarnessScope hs;
  ++seeks;
  if (!seekable_) { Ev("seek on non-seekable"); return -1; }
  if (f.fail_seek && (seeks == f.fail_seek || (f.sticky && seeks > f.fail_seek))) {
    ++faults;
    FaultCount("seek_error");
    Ev("seek #%llu failed", (unsigned long long)seeks);
    return f.code;
  }
  if (position < 0) return -1;
  pos_ = position;
  return 0;
}
void SimWriter::ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 position) {
  HarnessScope hs;
  notified.push_back({id, (uint64_t)position});
}
Bytes SimWriter::Replay(uint64_t nbytes) const {
  Bytes out;
  for (auto& r : recs) {
    if (!nbytes) break;
    uint32_t n = (uint32_t)std::min<uint64_t>(r.len, nbytes);
    if (r.pos + n > out.size()) out.resize(r.pos + n);
    memcpy(out.data() + r.pos, logged.data() + r.off, n);
    nbytes -= n;
  }
  return out;
}

// ---- simulated reader -------------------------------------------------------
int SimReader::Read(long long pos, long len, unsigned char* buf) {
  HarnessScope hs;
  ++reads;
  SimSteps(1);
  if (fail_read && (reads == fail_read || (sticky && reads > fail_read))) {
    ++faults;
    FaultCount("read_error");
    return -1;
  }
  if (pos < 0 || len < 0) return -1;
  if (len == 0) return 0;
  if ((uint64_t)pos >= d_->size() || (uint64_t)len > d_->size() - pos) {
    return total_known ? -1 : 1;
  }
  if ((uint64_t)pos + len > avail) { ++short_reads; return 1; }
  memcpy(buf, d_->data() + pos, len);
  return 0;
}
int SimReader::Length(long long* total, long long* available) {
  if (total) *total = total_known ? (long long)d_->size() : -1;
  if (available) *available = (long long)avail;
  return 0;
}

// ---- plan -------------------------------------------------------------------
namespace {
std::string Word(const char* l) {
  static const char* w[] = {"a", "Main video", "x264-ish", "commentary \xC3\xA9", "und", "long name 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123"};
  return w[Draw(6, l)];
}
void DrawTrack(TrackPlan* t, bool meta) {
  static const char* vc[] = {"V_VP8", "V_VP9", "V_AV1", "V_MPEG4/ISO/AVC"};
  static const char* ac[] = {"A_VORBIS", "A_OPUS", "A_AAC"};
  static const char* tc[] = {"D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "D_WEBVTT/METADATA", "D_WEBVTT/DESCRIPTIONS"};
  if (t->kind == 0) t->codec = vc[Draw(4, "t.codec")];
  if (t->kind == 1) t->codec = ac[Draw(3, "t.codec")];
  if (t->kind == 2) t->codec = tc[Draw(4, "t.codec")];
  if (t->codec == "V_AV1" || Chance(1, 4, "t.priv?")) t->priv = MakePayload(Draw(1000, "t.privs"), Range(1, Chance(1, 12, "t.privbig") ? 20000 : 300, "t.privl"));
  if (!meta || !Chance(1, 2, "t.meta?")) return;
  if (Chance(1, 3, "t.name?")) t->name = Word("t.name");
  if (Chance(1, 3, "t.lang?")) { static const char* lg[] = {"fr", "eng", "zh-Hant-TW", "x"}; t->lang = lg[Draw(4, "t.lang")]; }
  if (Chance(1, 4, "t.delay?")) t->codec_delay = 1 + Magnitude(1ULL << 40, "t.delay");
  if (Chance(1, 4, "t.preroll?")) t->preroll = 1 + Magnitude(1ULL << 40, "t.preroll");
  if (Chance(1, 4, "t.defdur?")) t->default_dur = 1 + Magnitude(1ULL << 36, "t.defdur");
  if (Chance(1, 4, "t.maxadd?")) t->max_add_id = 1 + Magnitude(1 << 20, "t.maxadd");
  if (Chance(1, 4, "t.uid?")) t->uid = 1 + Magnitude(~0ULL >> 1, "t.uid");
  if (Chance(1, 6, "t.enc?")) { t->enc = true; t->enc_key = MakePayload(Draw(1000, "t.encs"), Range(1, 40, "t.encl")); }
  if (t->kind == 0) {
    t->w = Range(1, 5000, "v.w"); t->h = Range(1, 5000, "v.h");
    if (Chance(1, 3, "v.disp?")) { t->dw = Range(1, 70000, "v.dw"); t->dh = Range(1, 70000, "v.dh"); }
    if (Chance(1, 4, "v.pix?")) { t->pw = Range(1, 70000, "v.pw"); t->ph = Range(1, 70000, "v.ph"); }
    if (Chance(1, 4, "v.crop?")) { t->cl = Range(1, 300, "v.cl"); t->cr = Range(1, 300, "v.cr"); t->ct = Range(1, 300, "v.ct"); t->cb = Range(1, 300, "v.cb"); }
    static const int st[] = {0, 1, 2, 3, 11};
    t->stereo = st[Draw(5, "v.stereo")];
    t->alpha = Draw(2, "v.alpha");
    if (Chance(1, 5, "v.cs?")) t->cspace = "YV12";
    if (Chance(1, 4, "v.fps?")) t->fps = Chance(1, 8, "v.slow") ? (double)Range(1, 100, "v.fps") / 100 : 1 + (double)Draw(12000, "v.fps") / 100;
    if (Chance(1, 3, "v.colour?")) {
      t->colour = true;
      static const uint64_t mx[13] = {11, 17, 3, 3, 3, 3, 3, 3, 4, 17, 11, 10000, 10000};
      for (int i = 0; i < 13; ++i) t->cv[i] = Chance(1, 2, "c.has") ? (Chance(1, 6, "c.zero") ? 0 : Draw(mx[i], "c.v")) : ~0ULL;
      if (t->cv[9] == 0) t->cv[9] = 1;  // transfer characteristics start at 1
      if (t->cv[0] == 3) t->cv[0] = 4;  // reserved values
      if (t->cv[9] == 3) t->cv[9] = 4;
      if (t->cv[10] == 3 || t->cv[10] == 0) t->cv[10] = 1;
      if (Chance(1, 2, "c.mm?")) {
        t->mastering = true;
        t->has_lum_max = Chance(1, 2, "c.lmax?"); t->has_lum_min = Chance(1, 2, "c.lmin?");
        t->lum_max = 1000 + (float)Draw(8000, "c.lmax"); t->lum_min = (float)Draw(999, "c.lmin");
        for (int i = 0; i < 4; ++i) { t->chroma[i] = Chance(1, 2, "c.ch?"); t->cx[i] = Draw(1001, "c.x") / 1000.0f; t->cy[i] = Draw(1001, "c.y") / 1000.0f; }
      }
    }
    if (Chance(1, 4, "v.proj?")) {
      t->proj = true; t->ptype = (int)Draw(4, "p.type");
      t->yaw = (float)Draw(360, "p.y"); t->pitch = (float)Draw(180, "p.p") - 90; t->roll = (float)Draw(360, "p.r") - 180;
      if (Chance(1, 2, "p.priv?")) t->ppriv = MakePayload(Draw(1000, "p.ps"), Range(1, 200, "p.pl"));
    }
  } else if (t->kind == 1) {
    static const int rt[] = {8000, 44100, 48000, 96000, 11025};
    t->rate = rt[Draw(5, "a.rate")]; t->channels = (int)Range(1, 8, "a.ch");
    if (Chance(1, 3, "a.depth?")) t->depth = Range(1, 64, "a.depth");
  }
}
}  // namespace

MuxPlan DrawMuxPlan(const MuxOpts& o) {
  MuxPlan p;
  p.live = o.allow_live && Chance(1, 4, "m.live");
  p.seekable = !(o.allow_nonseek && Chance(1, 5, "m.nonseek"));
  p.chunking = o.allow_chunking && Chance(1, 4, "m.chunk");
  static const uint64_t scales[] = {1000000, 1000000, 1000000, 100000, 1000, 10000000, 333333, 1, 1000000000};
  p.scale = scales[Draw(9, "m.scale")];
  p.output_cues = !Chance(1, 6, "m.nocues");
  p.accurate = Chance(1, 4, "m.accurate");
  p.fixed_tc = Chance(1, 5, "m.fixedtc");
  p.estimate = Chance(1, 4, "m.estimate");
  p.cue_blocknum = !Chance(1, 6, "m.noblocknum");
  if (Chance(1, 3, "m.maxdur?")) { p.set_max_dur = true; static const uint64_t md[] = {0, 1, 50000000, 500000000, 5000000000ULL}; p.max_dur = md[Draw(5, "m.maxdur")]; }
  if (Chance(1, 4, "m.maxsize?")) p.max_size = 1 + Magnitude(20000, "m.maxsize");
  if (o.allow_meta && Chance(1, 3, "m.app?")) p.app = Word("m.app");
  if (o.allow_meta && Chance(1, 4, "m.muxapp?")) p.muxapp = Word("m.muxapp");
  if (o.allow_meta && Chance(1, 4, "m.date?")) { p.has_date = true; p.date = (int64_t)Magnitude(1ULL << 60, "m.date"); if (Chance(1, 2, "m.dneg")) p.date = -p.date; }
  if (Chance(1, 10, "m.setdur?")) p.set_duration = 1 + (double)Magnitude(1 << 22, "m.setdur");
  static const std::vector<std::vector<int>> layouts = {{0}, {1}, {0, 1}, {1, 0}, {0, 2}, {0, 1, 2}, {2}, {1, 1}, {0, 0}, {0, 1, 1}, {0, 0, 1, 2}, {1, 2}};
  const std::vector<int>& lay = layouts[Draw(layouts.size(), "m.layout")];
  bool explicit_nums = Chance(1, 3, "m.nums?");
  std::set<int> used;
  for (int k : lay) {
    TrackPlan t;
    t.kind = k;
    if (k == 0) p.has_video = true;
    if (explicit_nums) {
      int n;
      do { n = (int)Range(1, 126, "m.num"); if (used.count(n)) { n = 1; while (used.count(n)) ++n; } } while (used.count(n));
      used.insert(n);
      t.num_arg = n;
    }
    DrawTrack(&t, o.allow_meta);
    p.tracks.push_back(t);
  }
  if (Chance(1, 5, "m.cuestrack?")) p.cues_track = (int)Draw(p.tracks.size(), "m.cuestrack");
  if (o.allow_meta && Chance(1, 4, "m.chap?")) {
    int n = (int)Range(1, Chance(1, 8, "m.chapmany") ? 20 : 5, "m.chapn");
    for (int i = 0; i < n; ++i) {
      ChapterPlan c;
      if (!Chance(1, 4, "m.noid")) c.id = Fmt("ch%d", i);
      c.uid = 1 + Magnitude(1ULL << 50, "ch.uid");
      c.start = Magnitude(1ULL << 45, "ch.s"); c.end = c.start + Magnitude(1ULL << 40, "ch.e");
      int d = (int)Draw(Chance(1, 6, "ch.many") ? 9 : 4, "ch.d");
      for (int j = 0; j < d; ++j) c.disp.push_back({Word("ch.t"), Chance(1, 2, "ch.l?") ? "fra" : "", Chance(1, 2, "ch.c?") ? "ca" : ""});
      p.chapters.push_back(c);
    }
  }
  if (o.allow_meta && Chance(1, 4, "m.tags?")) {
    int n = (int)Range(1, Chance(1, 8, "m.tagmany") ? 20 : 5, "m.tagn");
    for (int i = 0; i < n; ++i) {
      std::vector<std::pair<std::string, std::string>> t;
      int m = (int)Range(1, Chance(1, 8, "tag.many") ? 20 : 5, "tag.n");
      for (int j = 0; j < m; ++j) t.push_back({Fmt("NAME%d", j), Chance(1, 10, "tag.none") ? "" : Word("tag.v")});
      p.tags.push_back(t);
    }
  }
  // timeline
  p.wide = o.allow_wide && Chance(1, 6, "m.wide");
  p.disorder = o.allow_disorder && o.allow_bad && Chance(1, 8, "m.disorder");
  uint64_t ts = Chance(1, 4, "m.t0?") ? Magnitude(1ULL << 44, "m.t0") : 0;
  int nops = (int)Range(1, o.max_ops, "m.nops");
  bool longrun = Chance(1, 16, "m.long");
  if (longrun) nops *= 6;
  uint32_t keyden = (uint32_t)Range(1, 12, "m.keyden");
  std::vector<bool> first(p.tracks.size(), true);
  uint32_t timing = (uint32_t)Draw(4, "m.timing");
  for (int i = 0; i < nops; ++i) {
    OpPlan op;
    uint64_t cls = Draw(64, "op.dt");
    uint64_t dt;
    if (timing == 0) dt = cls < 8 ? 0 : Range(1, 40, "op.dtms") * 1000000;
    else if (timing == 1) dt = cls < 8 ? 0 : cls < 48 ? Magnitude(40000000, "op.dtns") : Magnitude(1000000000, "op.dtns");
    else if (timing == 2) dt = cls < 4 ? 0 : cls < 56 ? Magnitude(1000000000, "op.dtns") : Magnitude(15000000000ULL, "op.dtns");
    else dt = cls < 16 ? 0 : Magnitude(4000000000ULL, "op.dtns");
    if (p.wide && cls >= 60) dt = Magnitude(120000000000ULL, "op.dtwide");
    ts += dt;
    op.ts = ts;
    uint64_t kind = Draw(o.allow_bad ? 32 : 28, "op.kind");
    op.kind = kind < 27 ? kOpFrame : kind == 27 ? kOpForce : kind == 28 ? kOpBadTs : kind == 29 ? kOpBadTrack : kind == 30 ? kOpEmpty : kOpNull;
    op.track = (int)Draw(p.tracks.size(), "op.track");
    const TrackPlan& t = p.tracks[op.track];
    op.key = t.kind != 0 ? !Chance(1, 16, "op.nonkey") : (first[op.track] || Chance(1, keyden, "op.key"));
    op.seed = Draw(1 << 16, "op.seed");
    uint64_t lc = Draw(64, "op.lenc");
    op.len = (uint32_t)(lc < 40 ? Range(1, 64, "op.len") : lc < 60 ? Range(1, 1000, "op.len") : lc < 63 ? Range(100, 20000, "op.len") : 1 + Draw(70000, "op.len"));
    op.api = (int)Draw(12, "op.api");
    op.api = op.api < 6 ? 0 : op.api < 8 ? 1 : op.api < 9 ? 2 : op.api < 10 ? 3 : 4;
    if (op.api == 1 || (op.api == 4 && Chance(1, 3, "op.g.add"))) { op.has_add = true; op.add_len = (uint32_t)(Chance(1, 16, "op.addbig") ? Range(16300, 16500, "op.addl") : Range(1, 200, "op.addl")); op.add_id = Chance(1, 6, "op.addwide") ? Magnitude(1ULL << 40, "op.addid") : Range(1, 5, "op.addid"); }
    if (op.api == 2 || (op.api == 4 && Chance(1, 3, "op.g.dis"))) { op.discard = (int64_t)Magnitude(1ULL << 40, "op.dis") + 1; if (Chance(1, 3, "op.disneg")) op.discard = -op.discard; }
    if (op.api == 3 || (op.api == 4 && Chance(1, 2, "op.g.dur"))) op.dur = 1 + Magnitude(5000000000ULL, "op.dur");
    if (op.api == 3) op.key = true;
    if (op.kind == kOpBadTs) {
      // Out of order: the muxer may refuse it; if it accepts, it must keep it.
      if (!p.disorder) op.kind = kOpFrame;
      else op.ts = ts - std::min<uint64_t>(ts, 1 + Magnitude(3000000000ULL, "op.back"));
    }
    if (op.kind == kOpFrame) first[op.track] = false;
    p.ops.push_back(op);
  }
  p.cues_first = !p.live && p.seekable && !p.chunking && Chance(1, 3, "m.cuesfirst");
  return p;
}

Bytes OpData(const OpPlan& o) { return MakePayload(o.seed, o.len); }
Bytes OpAdd(const OpPlan& o) { return MakePayload(o.seed + 77777, o.add_len); }

// ---- execution --------------------------------------------------------------
bool MuxRun::Setup() {
  const MuxPlan& p = *plan;
  setup_ok = false;
  { LibScope ls; seg = new (std::nothrow) mkvmuxer::Segment(); }
  if (!seg) { all_ok = false; first_fail = "new Segment"; return false; }
  auto fail = [&](const char* what) { all_ok = false; first_fail = what; Ev("setup: %s refused", what); return false; };
  LibScope ls;
  if (!seg->Init(w)) return fail("Segment::Init");
  if (p.chunking && !seg->SetChunking(true, chunk_base.c_str())) return fail("SetChunking");
  seg->set_mode(p.live ? mkvmuxer::Segment::kLive : mkvmuxer::Segment::kFile);
  seg->OutputCues(p.output_cues);
  seg->AccurateClusterDuration(p.accurate);
  seg->UseFixedSizeClusterTimecode(p.fixed_tc);
  seg->set_estimate_file_duration(p.estimate);
  if (p.set_max_dur) seg->set_max_cluster_duration(p.max_dur);
  if (p.max_size) seg->set_max_cluster_size(p.max_size);
  if (p.set_duration > 0) seg->set_duration(p.set_duration);
  seg->GetCues()->set_output_block_number(p.cue_blocknum);
  mkvmuxer::SegmentInfo* info = seg->GetSegmentInfo();
  info->set_timecode_scale(p.scale);
  if (!p.app.empty()) info->set_writing_app(p.app.c_str());
  if (!p.muxapp.empty()) info->set_muxing_app(p.muxapp.c_str());
  if (p.has_date) info->set_date_utc(p.date);
  for (auto& t : p.tracks) {
    mkvmuxer::Track* tr = nullptr;
    uint64_t num = 0;
    if (t.kind == 0) num = seg->AddVideoTrack((int32_t)t.w, (int32_t)t.h, t.num_arg);
    else if (t.kind == 1) num = seg->AddAudioTrack(t.rate, t.channels, t.num_arg);
    else {
      tr = seg->AddTrack(t.num_arg);
      if (!tr) return fail("AddTrack");
      num = tr->number();
      tr->set_type(0x11);
    }
    if (num == 0) return fail("Add*Track");
    tr = seg->GetTrackByNumber(num);
    if (!tr) return fail("GetTrackByNumber");
    { HarnessScope hs; numbers.push_back(num); }
    tr->set_codec_id(t.codec.c_str());
    if (!t.priv.empty() && !tr->SetCodecPrivate(t.priv.data(), t.priv.size())) return fail("SetCodecPrivate");
    if (!t.name.empty()) tr->set_name(t.name.c_str());
    if (!t.lang.empty()) tr->set_language(t.lang.c_str());
    tr->set_codec_delay(t.codec_delay);
    tr->set_seek_pre_roll(t.preroll);
    tr->set_default_duration(t.default_dur);
    tr->set_max_block_additional_id(t.max_add_id);
    if (t.uid) tr->set_uid(t.uid);
    if (t.enc) {
      if (!tr->AddContentEncoding()) return fail("AddContentEncoding");
      mkvmuxer::ContentEncoding* ce = tr->GetContentEncodingByIndex(0);
      if (!ce) return fail("GetContentEncodingByIndex");
      if (!ce->SetEncryptionID(t.enc_key.data(), t.enc_key.size())) return fail("SetEncryptionID");
    }
    if (t.kind == 0) {
      auto* v = static_cast<mkvmuxer::VideoTrack*>(tr);
      v->set_display_width(t.dw); v->set_display_height(t.dh);
      v->set_pixel_width(t.pw); v->set_pixel_height(t.ph);
      v->set_crop_left(t.cl); v->set_crop_right(t.cr); v->set_crop_top(t.ct); v->set_crop_bottom(t.cb);
      if (!v->SetStereoMode(t.stereo)) return fail("SetStereoMode");
      if (!v->SetAlphaMode(t.alpha)) return fail("SetAlphaMode");
      if (!t.cspace.empty()) v->set_colour_space(t.cspace.c_str());
      v->set_frame_rate(t.fps);
      if (t.colour) {
        mkvmuxer::Colour c;
        c.set_matrix_coefficients(t.cv[0]); c.set_bits_per_channel(t.cv[1]);
        c.set_chroma_subsampling_horz(t.cv[2]); c.set_chroma_subsampling_vert(t.cv[3]);
        c.set_cb_subsampling_horz(t.cv[4]); c.set_cb_subsampling_vert(t.cv[5]);
        c.set_chroma_siting_horz(t.cv[6]); c.set_chroma_siting_vert(t.cv[7]);
        c.set_range(t.cv[8]); c.set_transfer_characteristics(t.cv[9]); c.set_primaries(t.cv[10]);
        c.set_max_cll(t.cv[11]); c.set_max_fall(t.cv[12]);
        if (t.mastering) {
          mkvmuxer::MasteringMetadata mm;
          if (t.has_lum_max) mm.set_luminance_max(t.lum_max);
          if (t.has_lum_min) mm.set_luminance_min(t.lum_min);
          mkvmuxer::PrimaryChromaticity pc[4];
          for (int i = 0; i < 4; ++i) { pc[i].set_x(t.cx[i]); pc[i].set_y(t.cy[i]); }
          if (!mm.SetChromaticity(t.chroma[0] ? &pc[0] : nullptr, t.chroma[1] ? &pc[1] : nullptr,
                                  t.chroma[2] ? &pc[2] : nullptr, t.chroma[3] ? &pc[3] : nullptr)) return fail("SetChromaticity");
          if (!c.SetMasteringMetadata(mm)) return fail("SetMasteringMetadata");
        }
        if (!v->SetColour(c)) return fail("SetColour");
      }
      if (t.proj) {
        mkvmuxer::Projection pr;
        pr.set_type((mkvmuxer::Projection::ProjectionType)t.ptype);
        pr.set_pose_yaw(t.yaw); pr.set_pose_pitch(t.pitch); pr.set_pose_roll(t.roll);
        if (!t.ppriv.empty() && !pr.SetProjectionPrivate(t.ppriv.data(), t.ppriv.size())) return fail("SetProjectionPrivate");
        if (!v->SetProjection(pr)) return fail("SetProjection");
      }
    } else if (t.kind == 1) {
      static_cast<mkvmuxer::AudioTrack*>(tr)->set_bit_depth(t.depth);
    }
  }
  if (p.cues_track >= 0 && !seg->CuesTrack(numbers[p.cues_track])) return fail("CuesTrack");
  for (auto& c : p.chapters) {
    mkvmuxer::Chapter* ch = seg->AddChapter();
    if (!ch) return fail("AddChapter");
    if (!c.id.empty() && !ch->set_id(c.id.c_str())) return fail("Chapter::set_id");
    ch->set_uid(c.uid);
    ch->set_time(*seg, c.start, c.end);
    for (auto& d : c.disp)
      if (!ch->add_string(d.title.c_str(), d.lang.empty() ? nullptr : d.lang.c_str(), d.country.empty() ? nullptr : d.country.c_str())) return fail("Chapter::add_string");
  }
  for (auto& t : p.tags) {
    mkvmuxer::Tag* tag = seg->AddTag();
    if (!tag) return fail("AddTag");
    for (auto& s : t) if (!tag->add_simple_tag(s.first.c_str(), s.second.empty() ? nullptr : s.second.c_str())) return fail("add_simple_tag");
  }
  setup_ok = true;
  return true;
}

bool MuxRun::Op(const OpPlan& o) {
  Bytes d = OpData(o);
  Bytes a = OpAdd(o);
  if (o.kind == kOpEmpty) d.clear();
  uint64_t num = numbers[o.track];
  if (o.kind == kOpBadTrack) { num = 1 + (o.seed % 126); while (std::find(numbers.begin(), numbers.end(), num) != numbers.end()) num = num % 126 + 1; if (o.seed & 1) num = (o.seed & 2) ? 0 : 127; }
  bool ok = false;
  {
    LibScope ls;
    static const uint8_t dummy = 0;
    const uint8_t* dp = o.kind == kOpNull ? nullptr : d.empty() ? &dummy : d.data();
    if (o.kind == kOpForce) {
      seg->ForceNewClusterOnNextFrame();
      return true;
    }
    switch (o.api) {
      case 0: ok = seg->AddFrame(dp, d.size(), num, o.ts, o.key); break;
      case 1: ok = seg->AddFrameWithAdditional(dp, d.size(), a.data(), a.size(), o.add_id, num, o.ts, o.key); break;
      case 2: ok = seg->AddFrameWithDiscardPadding(dp, d.size(), o.discard, num, o.ts, o.key); break;
      case 3: ok = seg->AddMetadata(dp, d.size(), num, o.ts, o.dur); break;
      default: {
        if (!dp) { ok = seg->AddGenericFrame(nullptr); break; }
        mkvmuxer::Frame f;
        bool built = f.Init(dp, d.size());
        if (built && o.has_add) built = f.AddAdditionalData(a.data(), a.size(), o.add_id);
        if (built) {
          f.set_track_number(num);
          f.set_timestamp(o.ts);
          f.set_is_key(o.key);
          if (o.discard) f.set_discard_padding(o.discard);
          if (o.dur) f.set_duration(o.dur);
          ok = seg->AddGenericFrame(&f);
        }
      }
    }
  }
  Ev("op kind=%d track=%llu ts=%llu key=%d len=%zu api=%d -> %d", (int)o.kind, (unsigned long long)num, (unsigned long long)o.ts, o.key, d.size(), o.api, ok);
  if (ok && (o.kind == kOpFrame || o.kind == kOpBadTs)) {
    accepted.push_back(&o);
    accepted_track.push_back(num);
  }
  return ok;
}
bool MuxRun::Finalize() {
  bool ok;
  { LibScope ls; ok = seg->Finalize(); }
  Ev("finalize -> %d", ok);
  return ok;
}
bool MuxRun::RunAll(bool strict, const char* key) {
  const std::string K = key;
  if (!Setup()) {
    if (strict) Fail(K + ":refused-setup", "%s failed without a fault", first_fail.c_str());
    return false;
  }
  bool disorder_seen = false;
  for (auto& o : plan->ops) {
    bool ok = Op(o);
    if (o.kind == kOpForce) continue;
    if (o.kind == kOpFrame) {
      if (!ok) {
        if (strict && !disorder_seen)
          Fail(K + ":refused-frame", "a valid frame (track %llu, time %llu ns, %u bytes) was refused", (unsigned long long)numbers[o.track], (unsigned long long)o.ts, o.len);
        all_ok = false;
        if (first_fail.empty()) first_fail = "AddFrame";
      }
    } else if (o.kind == kOpBadTs) {
      disorder_seen = true;
    } else if (ok) {
      Fail(K + ":accepted-invalid", "an invalid frame (kind %d) was accepted", (int)o.kind);
    }
  }
  if (!plan->finalize) return true;
  bool ok = Finalize();
  if (!ok) {
    all_ok = false;
    if (first_fail.empty()) first_fail = "Finalize";
    if (strict && !disorder_seen && !accepted.empty()) Fail(K + ":refused-finalize", "finalising failed without a fault");
  }
  return ok;
}
void MuxRun::Destroy() {
  LibScope ls;
  delete seg;
  seg = nullptr;
}

// ---- judges -----------------------------------------------------------------
FileView MustView(const Bytes& b, const char* key) {
  FileView v;
  std::string err;
  if (!ViewFile(b, false, &v, &err)) Fail(std::string(key) + ":malformed", "output is not a well-formed document: %s (%zu bytes)", err.c_str(), b.size());
  return v;
}

void JudgeFrames(const MuxRun& r, const Bytes& b, const FileView& v, const char* key) {
  const std::string K = key;
  const MuxPlan& p = *r.plan;
  std::map<uint64_t, std::vector<size_t>> want, got;
  for (size_t i = 0; i < r.accepted.size(); ++i) want[r.accepted_track[i]].push_back(i);
  for (size_t i = 0; i < v.blocks.size(); ++i) got[v.blocks[i].track].push_back(i);
  for (auto& g : got) if (!want.count(g.first)) Fail(K + ":extra-frame", "file holds %zu frames for track %llu which got none", g.second.size(), (unsigned long long)g.first);
  bool monotone = true;
  for (size_t i = 1; i < r.accepted.size(); ++i) monotone = monotone && r.accepted[i]->ts >= r.accepted[i - 1]->ts;
  for (auto& wv : want) {
    auto& g = got[wv.first];
    for (size_t i = 0; i < wv.second.size() || i < g.size(); ++i) {
      if (i >= g.size()) Fail(K + ":lost-frame", "track %llu: %zu frames accepted, %zu in the file; first missing has time %llu ns", (unsigned long long)wv.first, wv.second.size(), g.size(), (unsigned long long)r.accepted[wv.second[i]]->ts);
      if (i >= wv.second.size()) Fail(K + ":extra-frame", "track %llu: %zu frames accepted, %zu in the file", (unsigned long long)wv.first, wv.second.size(), g.size());
      const OpPlan& o = *r.accepted[wv.second[i]];
      const Blk& bl = v.blocks[g[i]];
      auto where = [&] { return Fmt("track %llu frame %zu (time %llu ns, byte %llu)", (unsigned long long)wv.first, i, (unsigned long long)o.ts, (unsigned long long)bl.pos); };
      if (bl.data != OpData(o)) Fail(K + ":wrong-data", "%s: payload differs (%zu bytes, %u given)", where().c_str(), bl.data.size(), o.len);
      if (bl.tc != (int64_t)(o.ts / p.scale)) Fail(K + ":wrong-time", "%s: stored at tick %lld, given tick %llu", where().c_str(), (long long)bl.tc, (unsigned long long)(o.ts / p.scale));
      if (bl.key != o.key) Fail(K + ":wrong-key", "%s: key flag %d, given %d", where().c_str(), bl.key, o.key);
      if (bl.has_add != o.has_add || (o.has_add && (bl.add != OpAdd(o) || bl.add_id != o.add_id))) Fail(K + ":wrong-additional", "%s: additional data differs", where().c_str());
      if ((o.discard != 0) != bl.has_discard || (o.discard && bl.discard != o.discard)) Fail(K + ":wrong-discard", "%s: discard padding %lld, given %lld", where().c_str(), (long long)bl.discard, (long long)o.discard);
      uint64_t d = o.dur / p.scale;
      if (o.dur) {
        if (bl.has_dur != (d > 0) || bl.dur != d) Fail(K + ":wrong-duration", "%s: duration %llu ticks, given %llu", where().c_str(), (unsigned long long)bl.dur, (unsigned long long)d);
      } else if (bl.has_dur) {
        // Only accurate cluster durations add one: to the last frame of the
        // track in a cluster, reaching to the next cluster's first frame.
        bool last = true;
        for (size_t j = i + 1; j < g.size(); ++j) if (v.blocks[g[j]].cluster == bl.cluster) last = false;
        if (!p.accurate || !last || bl.cluster + 1 >= (int)v.clusters.size())
          Fail(K + ":invented-duration", "%s: duration %llu ticks was not given", where().c_str(), (unsigned long long)bl.dur);
      }
    }
  }
  if (monotone)
    for (size_t i = 1; i < v.blocks.size(); ++i)
      if (v.blocks[i].tc < v.blocks[i - 1].tc)
        Fail(K + ":order", "frame at byte %llu (tick %lld) follows one at tick %lld although frames were given in time order", (unsigned long long)v.blocks[i].pos, (long long)v.blocks[i].tc, (long long)v.blocks[i - 1].tc);
}

namespace {
struct MC {
  const Bytes& b; std::string K; std::string where;
  void U(const El& e, uint32_t id, uint64_t want, uint64_t dflt) {
    const El* k = e.Find(id);
    uint64_t got = k ? ElUInt(b, *k) : dflt;
    if (e.CountOf(id) > 1) Fail(K + ":meta", "%s: element %x appears %d times", where.c_str(), id, e.CountOf(id));
    if (got != want) Fail(K + ":meta", "%s: element %x is %llu, %llu was set", where.c_str(), id, (unsigned long long)got, (unsigned long long)want);
  }
  void OptU(const El& e, uint32_t id, uint64_t want) {
    const El* k = e.Find(id);
    if (want == ~0ULL) { if (k) Fail(K + ":meta", "%s: element %x was not set", where.c_str(), id); return; }
    if (!k) Fail(K + ":meta", "%s: element %x missing", where.c_str(), id);
    U(e, id, want, 0);
  }
  void S(const El& e, uint32_t id, const std::string& want) {
    const El* k = e.Find(id);
    std::string got = k ? ElStr(b, *k) : "";
    if (got != want || e.CountOf(id) > 1) Fail(K + ":meta", "%s: element %x is '%s', '%s' was set", where.c_str(), id, got.c_str(), want.c_str());
  }
  void B(const El& e, uint32_t id, const Bytes& want) {
    const El* k = e.Find(id);
    Bytes got;
    if (k) got.assign(b.begin() + k->body(), b.begin() + k->end());
    if (got != want) Fail(K + ":meta", "%s: element %x holds %zu bytes that differ from the %zu set", where.c_str(), id, got.size(), want.size());
  }
  void F(const El& e, uint32_t id, double want, double dflt) {
    const El* k = e.Find(id);
    double got = k ? ElFloat(b, *k) : dflt;
    if ((float)got != (float)want) Fail(K + ":meta", "%s: element %x is %g, %g was set", where.c_str(), id, got, want);
  }
};
}  // namespace

void JudgeMeta(const MuxRun& r, const Bytes& b, const FileView& v, const char* key) {
  const MuxPlan& p = *r.plan;
  MC m{b, key, ""};
  const std::string K = key;
  if (!v.ebml) Fail(K + ":meta", "no EBML header");
  m.where = "EBML header";
  bool webm = true;
  for (auto& t : p.tracks) if (t.codec == "V_MPEG4/ISO/AVC" || t.codec == "A_AAC") webm = false;
  m.S(*v.ebml, 0x4282, webm ? "webm" : "matroska");
  m.U(*v.ebml, 0x4286, 1, 0); m.U(*v.ebml, 0x42F7, 1, 0); m.U(*v.ebml, 0x4285, 2, 0);
  bool v4 = false;
  for (auto& t : p.tracks) v4 |= t.codec_delay || t.preroll;
  for (auto& k : v.blocks) v4 |= k.has_discard;
  if (v4) { const El* dv = v.ebml->Find(0x4287); if (!dv || ElUInt(b, *dv) < 4) Fail(K + ":meta", "the file uses version 4 elements but declares version %llu", dv ? (unsigned long long)ElUInt(b, *dv) : 0ULL); }
  const El* info = v.segment->Find(0x1549A966);
  if (!info || v.segment->CountOf(0x1549A966) != 1) Fail(K + ":meta", "segment information missing or repeated");
  m.where = "segment information";
  m.U(*info, 0x2AD7B1, p.scale, 0);
  if (!p.app.empty()) m.S(*info, 0x5741, p.app); else if (!info->Find(0x5741)) Fail(K + ":meta", "no writing application");
  if (!p.muxapp.empty()) m.S(*info, 0x4D80, p.muxapp); else if (!info->Find(0x4D80)) Fail(K + ":meta", "no muxing application");
  const El* date = info->Find(0x4461);
  if ((date != nullptr) != p.has_date || (date && ElSInt(b, *date) != p.date)) Fail(K + ":meta", "creation date differs");
  const El* tracks = v.segment->Find(0x1654AE6B);
  if (!tracks || v.segment->CountOf(0x1654AE6B) != 1) Fail(K + ":meta", "track list missing or repeated");
  if (tracks->CountOf(0xAE) != (int)p.tracks.size()) Fail(K + ":meta", "%d tracks in the file, %zu added", tracks->CountOf(0xAE), p.tracks.size());
  std::set<uint64_t> uids, nums;
  size_t idx = 0;
  for (auto& e : tracks->kids) {
    if (e.id != 0xAE) continue;
    const TrackPlan& t = p.tracks[idx];
    m.where = Fmt("track entry %zu", idx);
    m.U(e, 0xD7, r.numbers[idx], 0);
    if (t.num_arg && r.numbers[idx] != (uint64_t)t.num_arg) Fail(K + ":meta", "track got number %llu, %d was asked for", (unsigned long long)r.numbers[idx], t.num_arg);
    if (!nums.insert(r.numbers[idx]).second || r.numbers[idx] < 1 || r.numbers[idx] > 126) Fail(K + ":meta", "bad or repeated track number");
    m.U(e, 0x83, t.kind == 0 ? 1 : t.kind == 1 ? 2 : 0x11, 0);
    if (t.uid) m.U(e, 0x73C5, t.uid, 0);
    else { const El* u = e.Find(0x73C5); if (!u || ElUInt(b, *u) == 0) Fail(K + ":meta", "%s: no UID", m.where.c_str()); uids.insert(ElUInt(b, *u)); }
    m.S(e, 0x86, t.codec); m.B(e, 0x63A2, t.priv);
    m.S(e, 0x536E, t.name); m.S(e, 0x22B59C, t.lang);
    m.U(e, 0x56AA, t.codec_delay, 0); m.U(e, 0x56BB, t.preroll, 0); m.U(e, 0x23E383, t.default_dur, 0); m.U(e, 0x55EE, t.max_add_id, 0);
    const El* ce = e.Find(0x6D80);
    if ((ce != nullptr) != t.enc) Fail(K + ":meta", "%s: content encodings differ", m.where.c_str());
    if (ce) {
      const El* c1 = ce->Find(0x6240); const El* en = c1 ? c1->Find(0x5035) : nullptr; const El* aes = en ? en->Find(0x47E7) : nullptr;
      if (!aes) Fail(K + ":meta", "%s: content encryption incomplete", m.where.c_str());
      m.B(*en, 0x47E2, t.enc_key); m.U(*en, 0x47E1, 5, 0); m.U(*aes, 0x47E8, 1, 0); m.U(*c1, 0x5033, 1, 0); m.U(*c1, 0x5032, 1, 1); m.U(*c1, 0x5031, 0, 0);
    }
    const El* ve = e.Find(0xE0); const El* ae = e.Find(0xE1);
    if ((ve != nullptr) != (t.kind == 0) || (ae != nullptr) != (t.kind == 1)) Fail(K + ":meta", "%s: video/audio settings do not match the track type", m.where.c_str());
    if (ve) {
      m.U(*ve, 0xB0, t.pw ? t.pw : t.w, 0); m.U(*ve, 0xBA, t.ph ? t.ph : t.h, 0);
      m.U(*ve, 0x54B0, t.dw, 0); m.U(*ve, 0x54BA, t.dh, 0);
      m.U(*ve, 0x54CC, t.cl, 0); m.U(*ve, 0x54DD, t.cr, 0); m.U(*ve, 0x54BB, t.ct, 0); m.U(*ve, 0x54AA, t.cb, 0);
      m.U(*ve, 0x53B8, t.stereo, 0); m.U(*ve, 0x53C0, t.alpha, 0); m.S(*ve, 0x2EB524, t.cspace); m.F(*ve, 0x2383E3, t.fps, 0);
      const El* ce2 = ve->Find(0x55B0);
      if (t.colour) {
        El empty;
        const El& c = ce2 ? *ce2 : empty;
        static const uint32_t ids[13] = {0x55B1, 0x55B2, 0x55B3, 0x55B4, 0x55B5, 0x55B6, 0x55B7, 0x55B8, 0x55B9, 0x55BA, 0x55BB, 0x55BC, 0x55BD};
        for (int i = 0; i < 13; ++i) m.OptU(c, ids[i], t.cv[i]);
        const El* mm = c.Find(0x55D0);
        const El& mr = mm ? *mm : empty;
        auto fl = [&](uint32_t id, bool has, float val) {
          const El* k = mr.Find(id);
          if ((k != nullptr) != has || (k && (float)ElFloat(b, *k) != val)) Fail(K + ":meta", "%s: mastering value %x differs", m.where.c_str(), id);
        };
        fl(0x55D9, t.mastering && t.has_lum_max, t.lum_max); fl(0x55DA, t.mastering && t.has_lum_min, t.lum_min);
        for (int i = 0; i < 4; ++i) { fl(0x55D1 + 2 * i, t.mastering && t.chroma[i], t.cx[i]); fl(0x55D2 + 2 * i, t.mastering && t.chroma[i], t.cy[i]); }
      } else if (ce2) Fail(K + ":meta", "%s: colour was not set", m.where.c_str());
      const El* pr = ve->Find(0x7670);
      if ((pr != nullptr) != t.proj) Fail(K + ":meta", "%s: projection differs", m.where.c_str());
      if (pr) { m.U(*pr, 0x7671, t.ptype, 0); m.F(*pr, 0x7673, t.yaw, 0); m.F(*pr, 0x7674, t.pitch, 0); m.F(*pr, 0x7675, t.roll, 0); m.B(*pr, 0x7672, t.ppriv); }
    }
    if (ae) { m.F(*ae, 0xB5, t.rate, 8000); m.U(*ae, 0x9F, t.channels, 1); m.U(*ae, 0x6264, t.depth, 0); }
    ++idx;
  }
  const El* ch = v.segment->Find(0x1043A770);
  if ((ch != nullptr) != !p.chapters.empty()) Fail(K + ":meta", "chapters differ");
  if (ch) {
    const El* ed = ch->Find(0x45B9);
    if (!ed || ed->CountOf(0xB6) != (int)p.chapters.size()) Fail(K + ":meta", "chapter count differs");
    size_t i = 0;
    for (auto& a : ed->kids) {
      if (a.id != 0xB6) continue;
      const ChapterPlan& c = p.chapters[i];
      m.where = Fmt("chapter %zu", i++);
      m.S(a, 0x5654, c.id); m.U(a, 0x73C4, c.uid, 0); m.U(a, 0x91, c.start / p.scale, 0); m.U(a, 0x92, c.end / p.scale, 0);
      if (a.CountOf(0x80) != (int)c.disp.size()) Fail(K + ":meta", "%s: %d titles, %zu added", m.where.c_str(), a.CountOf(0x80), c.disp.size());
      size_t j = 0;
      for (auto& d : a.kids) if (d.id == 0x80) { m.S(d, 0x85, c.disp[j].title); m.S(d, 0x437C, c.disp[j].lang); m.S(d, 0x437E, c.disp[j].country); ++j; }
    }
  }
  const El* tg = v.segment->Find(0x1254C367);
  if ((tg != nullptr) != !p.tags.empty()) Fail(K + ":meta", "tags differ");
  if (tg) {
    if (tg->CountOf(0x7373) != (int)p.tags.size()) Fail(K + ":meta", "tag count differs");
    size_t i = 0;
    for (auto& t : tg->kids) {
      if (t.id != 0x7373) continue;
      auto& pt = p.tags[i];
      m.where = Fmt("tag %zu", i++);
      if (t.CountOf(0x67C8) != (int)pt.size()) Fail(K + ":meta", "%s: entry count differs", m.where.c_str());
      size_t j = 0;
      for (auto& s : t.kids) if (s.id == 0x67C8) { m.S(s, 0x45A3, pt[j].first); m.S(s, 0x4487, pt[j].second); ++j; }
    }
  }
}

void JudgeStructure(const MuxRun& r, const Bytes& b, const FileView& v, const char* key, bool cues_before) {
  const MuxPlan& p = *r.plan;
  const std::string K = key;
  const El& seg = *v.segment;
  const bool file = !p.live;
  const bool seekable = p.chunking ? true : p.seekable;
  typedef unsigned long long ull;
  if (v.root.kids.size() != 2) Fail(K + ":toplevel", "%zu top-level elements, expected a header and one segment", v.root.kids.size());
  if (file && seekable) {
    if (seg.unknown) Fail(K + ":segment-size", "the segment size was not written");
    if (seg.end() != b.size()) Fail(K + ":segment-size", "the segment ends at %llu, the file at %zu", (ull)seg.end(), b.size());
  } else if (!seg.unknown && seg.end() != b.size()) {
    Fail(K + ":segment-size", "the segment ends at %llu, the file at %zu", (ull)seg.end(), b.size());
  }
  const uint64_t base = seg.body();
  // Clusters.
  for (size_t i = 0; i < v.clusters.size(); ++i) {
    auto& c = v.clusters[i];
    bool last = i + 1 == v.clusters.size();
    if (c.unknown && seekable && !(p.live && !p.accurate && last)) Fail(K + ":cluster-size", "cluster %zu at byte %llu has no size", i, (ull)c.pos);
    if (!c.has_tc) Fail(K + ":cluster-time", "cluster %zu has no timecode", i);
    if (c.nblocks == 0) Fail(K + ":empty-cluster", "cluster %zu at byte %llu holds no frame", i, (ull)c.pos);
    if (i && c.tc < v.clusters[i - 1].tc && !p.disorder) Fail(K + ":cluster-time", "cluster %zu starts at tick %llu, before its predecessor", i, (ull)c.tc);
    if (p.fixed_tc) {
      int ci = 0;
      for (auto& k : seg.kids) if (k.id == 0x1F43B675 && ci++ == (int)i) { const El* tc = k.Find(0xE7); if (tc->size != 8) Fail(K + ":cluster-time", "timecode of cluster %zu takes %llu bytes", i, (ull)tc->size); }
    }
  }
  // Earlier video frames of each cluster (track, tick). With held-back frames
  // (accurate durations) frames of different tracks and equal times may swap.
  std::vector<std::vector<std::pair<uint64_t, int64_t>>> seen_video(v.clusters.size());
  std::vector<int64_t> first_tc(v.clusters.size(), -1);
  std::map<uint64_t, int> kind;
  for (size_t i = 0; i < p.tracks.size(); ++i) kind[r.numbers[i]] = p.tracks[i].kind;
  const bool queueing = p.has_video && [&] { for (auto& t : p.tracks) if (t.kind == 1) return true; return false; }();
  for (auto& bl : v.blocks) {
    if (bl.tc < (int64_t)v.clusters[bl.cluster].tc) Fail(K + ":block-before-cluster", "frame at byte %llu is before its cluster's time", (ull)bl.pos);
    if (first_tc[bl.cluster] < 0) {
      first_tc[bl.cluster] = bl.tc;
      if (bl.tc != (int64_t)v.clusters[bl.cluster].tc && !p.disorder) Fail(K + ":cluster-time", "cluster at byte %llu is stamped %llu but its first frame is at %lld", (ull)v.clusters[bl.cluster].pos, (ull)v.clusters[bl.cluster].tc, (long long)bl.tc);
    }
    if (kind[bl.track] == 0) {
      bool earlier = false;
      for (auto& s : seen_video[bl.cluster]) if (!p.accurate || s.first == bl.track || s.second < bl.tc) earlier = true;
      if (bl.key && earlier) Fail(K + ":keyframe-cluster", "video key frame at byte %llu (tick %lld) does not open a cluster", (ull)bl.pos, (long long)bl.tc);
      seen_video[bl.cluster].emplace_back(bl.track, bl.tc);
    }
    if (!queueing && bl.index > 0) {
      uint64_t maxd = p.set_max_dur ? p.max_dur : 30000000000ULL;
      uint64_t rel = (uint64_t)(bl.tc - (int64_t)v.clusters[bl.cluster].tc) * p.scale;
      if (maxd > 0 && rel >= maxd) Fail(K + ":cluster-duration", "frame at byte %llu is %llu ns into its cluster, the limit is %llu", (ull)bl.pos, (ull)rel, (ull)maxd);
    }
    if (!queueing && !p.accurate && p.max_size && bl.index > 0 && bl.pos - (v.clusters[bl.cluster].pos + 12) >= p.max_size)
      Fail(K + ":cluster-bytes", "frame at byte %llu was added to a cluster already holding %llu bytes, the limit is %llu", (ull)bl.pos, (ull)(bl.pos - v.clusters[bl.cluster].pos - 12), (ull)p.max_size);
  }
  // A cluster ends for a reason: a video key frame, the duration or size limit,
  // or a frame too far away for the 16 bits of a block's time.
  bool forced = p.disorder;
  for (auto& o : p.ops) forced |= o.kind != kOpFrame && o.kind != kOpNull;
  if (!forced) {
    std::vector<int64_t> last_tc(v.clusters.size(), -1);
    std::vector<bool> has_key(v.clusters.size(), false);
    for (auto& bl : v.blocks) {
      last_tc[bl.cluster] = std::max(last_tc[bl.cluster], bl.tc);
      if (kind[bl.track] == 0 && bl.key) has_key[bl.cluster] = true;
    }
    const uint64_t maxd = p.set_max_dur ? p.max_dur : 30000000000ULL;
    for (size_t i = 1; i < v.clusters.size(); ++i) {
      auto& a = v.clusters[i - 1];
      bool why = has_key[i];
      for (size_t j = i; j < v.clusters.size() && j < i + 3; ++j) why |= last_tc[j] - (int64_t)a.tc > 32767 || (j > i && has_key[j] && queueing);
      const uint64_t rel = (uint64_t)(last_tc[i] - (int64_t)a.tc) * p.scale;
      why |= maxd > 0 && rel >= maxd;
      // what the cluster held at its end; a size of its own is not needed
      why |= p.max_size > 0 && v.clusters[i].pos - a.pos >= p.max_size;
      if (!why) Fail(K + ":cluster-cut", "the cluster at byte %llu ends at byte %llu, %llu ns long, without a reason (limits %llu ns, %llu bytes)", (ull)a.pos, (ull)v.clusters[i].pos, (ull)rel, (ull)maxd, (ull)p.max_size);
      Count("mux.cluster_cuts");
    }
  }
  // Cues.
  const El* cues = seg.Find(0x1C53BB6B);
  bool want_cues = file && p.output_cues;
  if ((cues != nullptr) != want_cues || seg.CountOf(0x1C53BB6B) > 1) Fail(K + ":cues", "cues %s", cues ? "present" : "missing");
  if (cues) {
    uint64_t ctrack = 0;
    if (p.cues_track >= 0) ctrack = r.numbers[p.cues_track];
    else { for (size_t i = 0; i < p.tracks.size() && !ctrack; ++i) if (p.tracks[i].kind == 0) ctrack = r.numbers[i]; if (!ctrack) ctrack = r.numbers[0]; }
    // Expected: the first frame of the cues track in every cluster.
    std::vector<const Blk*> want;
    int lastc = -1;
    for (auto& bl : v.blocks) if (bl.track == ctrack && bl.cluster != lastc) { want.push_back(&bl); lastc = bl.cluster; }
    std::vector<const El*> cps;
    for (auto& k : cues->kids) if (k.id == 0xBB) cps.push_back(&k);
    if (cps.size() != want.size()) Fail(K + ":cue-count", "%zu cue points, %zu clusters hold a frame of the cue track %llu", cps.size(), want.size(), (ull)ctrack);
    for (size_t i = 0; i < cps.size(); ++i) {
      const El* t = cps[i]->Find(0xB3); const El* tp = cps[i]->Find(0xB7);
      if (!t || !tp) Fail(K + ":cues", "cue point %zu incomplete", i);
      const El* ct = tp->Find(0xF7); const El* cp = tp->Find(0xF1); const El* bn = tp->Find(0x5378);
      if (!ct || !cp) Fail(K + ":cues", "cue point %zu incomplete", i);
      if (ElUInt(b, *ct) != ctrack) Fail(K + ":cue-track", "cue %zu is for track %llu, expected %llu", i, (ull)ElUInt(b, *ct), (ull)ctrack);
      if (!p.disorder && (int64_t)ElUInt(b, *t) != want[i]->tc) Fail(K + ":cue-time", "cue %zu is at tick %llu, the frame at %lld", i, (ull)ElUInt(b, *t), (long long)want[i]->tc);
      if (base + ElUInt(b, *cp) != v.clusters[want[i]->cluster].pos) Fail(K + ":cue-position", "cue %zu points to byte %llu, its cluster is at %llu", i, (ull)(base + ElUInt(b, *cp)), (ull)v.clusters[want[i]->cluster].pos);
      uint64_t n = bn ? ElUInt(b, *bn) : 1;
      if (bn && !p.cue_blocknum) Fail(K + ":cue-block", "cue %zu has a block number although switched off", i);
      if (p.cue_blocknum && !p.accurate && n != (uint64_t)want[i]->index + 1) Fail(K + ":cue-block", "cue %zu names block %llu, the frame is block %d", i, (ull)n, want[i]->index + 1);
    }
    if (cues_before && !v.clusters.empty() && cues->pos > v.clusters[0].pos) Fail(K + ":cues", "cues come after the clusters");
  }
  // Seek head.
  const El* sh = seg.Find(0x114D9B74);
  if ((sh != nullptr) != (file && seekable)) Fail(K + ":seekhead", "seek head %s", sh ? "present" : "missing");
  if (sh) {
    std::set<uint32_t> ids;
    for (auto& s : sh->kids) {
      if (s.id != 0x4DBB) continue;
      const El* id = s.Find(0x53AB); const El* pos = s.Find(0x53AC);
      if (!id || !pos) Fail(K + ":seekhead", "incomplete seek entry");
      uint32_t want = (uint32_t)ElUInt(b, *id);
      uint64_t at = base + ElUInt(b, *pos);
      const El* hit = nullptr;
      for (auto& k : seg.kids) if (k.pos == at) hit = &k;
      if (!hit || hit->id != want) Fail(K + ":seekhead", "seek entry for %x points to byte %llu where %s%x is", want, (ull)at, hit ? "" : "nothing ", hit ? hit->id : 0);
      if (want == 0x1F43B675 && !v.clusters.empty() && at != v.clusters[0].pos) Fail(K + ":seekhead", "seek entry does not name the first cluster");
      ids.insert(want);
    }
    for (auto& k : seg.kids)
      if ((k.id == 0x1549A966 || k.id == 0x1654AE6B || k.id == 0x1C53BB6B || k.id == 0x1043A770 || k.id == 0x1254C367) && !ids.count(k.id))
        Fail(K + ":seekhead", "no seek entry for element %x", k.id);
  }
  // Duration.
  if (file && seekable) {
    const El* info = seg.Find(0x1549A966);
    const El* du = info ? info->Find(0x4489) : nullptr;
    if (!du) Fail(K + ":duration", "no duration");
    double got = ElFloat(b, *du);
    bool mono = true;
    for (size_t i = 1; i < r.accepted.size(); ++i) mono = mono && r.accepted[i]->ts >= r.accepted[i - 1]->ts;
    if (p.set_duration > 0) {
      if ((float)got != (float)p.set_duration) Fail(K + ":duration", "duration %g, %g was set", got, p.set_duration);
    } else if (mono && !r.accepted.empty()) {
      const uint64_t last = r.accepted.back()->ts;
      double lo = (double)last / p.scale, hi = lo;
      double maxdur = 0;
      for (auto o : r.accepted) maxdur = std::max(maxdur, (double)o->dur);
      hi += maxdur / p.scale;
      bool exact = !queueing;
      double want = ((double)last + r.accepted.back()->dur) / p.scale;
      if (p.estimate && r.accepted.back()->dur == 0) {
        std::map<uint64_t, std::pair<uint64_t, uint64_t>> tl;
        for (size_t i = 0; i < r.accepted.size(); ++i) { auto& e = tl[r.accepted_track[i]]; e.first = r.accepted[i]->ts; e.second++; }
        double est = 0;
        for (auto& e : tl) if (e.second.second >= 2) est = std::max(est, ((double)e.second.first + (double)e.second.first / (e.second.second - 1)) / p.scale);
        want = std::max(want, est);
        hi = std::max(hi, est);
      }
      if (p.estimate && queueing) {
        for (size_t i = 0; i < 1; ++i) hi = std::max(hi, 2 * lo + 1);
      }
      if (want > 0 && (exact || lo > 0)) {
        if (exact ? std::fabs(got - want) > want * 1e-6 : (got < lo * (1 - 1e-6) || got > hi * (1 + 1e-6)))
          Fail(K + ":duration", "duration %.9g ticks, expected %.9g (frames end at %.9g)", got, want, lo);
      }
    }
  }
}

void JudgeParserReadback(const MuxRun& r, const Bytes& b, const FileView& v, const char* key) {
  const std::string K = key;
  const MuxPlan& p = *r.plan;
  SimReader rd(&b);
  typedef unsigned long long ull;
  mkvparser::Segment* seg = nullptr;
  std::vector<Blk> got;
  std::string fail;
  {
    LibScope ls;
    mkvparser::EBMLHeader h;
    long long pos = 0;
    long long st = h.Parse(&rd, pos);
    if (st == 0) st = mkvparser::Segment::CreateInstance(&rd, pos, seg);
    HarnessScope hs;
    if (st != 0 || !seg) Fail(K + ":readback-open", "the pull parser refuses the file (%lld)", (long long)st);
  }
  struct Del { mkvparser::Segment* s; ~Del() { LibScope ls; delete s; } } del{seg};
  long st;
  { LibScope ls; st = seg->Load(); }
  if (st < 0) Fail(K + ":readback-load", "the pull parser fails to load the file (%ld)", st);
  const mkvparser::Tracks* tracks = seg->GetTracks();
  if (!tracks || tracks->GetTracksCount() != p.tracks.size()) Fail(K + ":readback-tracks", "%lu tracks read back, %zu added", tracks ? tracks->GetTracksCount() : 0, p.tracks.size());
  size_t n = 0;
  const mkvparser::Cluster* c = seg->GetFirst();
  while (c && !c->EOS()) {
    const mkvparser::BlockEntry* e = nullptr;
    long rc;
    { LibScope ls; rc = c->GetFirst(e); }
    if (rc < 0) Fail(K + ":readback-cluster", "reading cluster entries failed (%ld)", rc);
    while (e && !e->EOS()) {
      const mkvparser::Block* blk = e->GetBlock();
      if (n >= v.blocks.size()) Fail(K + ":readback-extra", "more frames read back than the file holds");
      const Blk& w = v.blocks[n];
      if ((uint64_t)blk->GetTrackNumber() != w.track || blk->GetFrameCount() != 1) Fail(K + ":readback-frame", "frame %zu: track %lld, %d frames", n, (long long)blk->GetTrackNumber(), blk->GetFrameCount());
      if (blk->GetTimeCode(c) != w.tc) Fail(K + ":readback-time", "frame %zu read back at tick %lld, stored at %lld", n, (long long)blk->GetTimeCode(c), (long long)w.tc);
      if ((ull)blk->GetTime(c) != (ull)w.tc * p.scale) Fail(K + ":readback-time", "frame %zu read back at %lld ns", n, (long long)blk->GetTime(c));
      if (blk->IsKey() != w.key) Fail(K + ":readback-key", "frame %zu: key %d", n, blk->IsKey());
      const mkvparser::Block::Frame& f = blk->GetFrame(0);
      Bytes d(f.len > 0 ? f.len : 0);
      long rr;
      { LibScope ls; rr = f.Read(&rd, d.data()); }
      if (rr != 0 || d != w.data) Fail(K + ":readback-data", "frame %zu: data differs (%ld bytes, status %ld)", n, f.len, rr);
      if (w.has_discard && blk->GetDiscardPadding() != w.discard) Fail(K + ":readback-discard", "frame %zu: discard padding %lld", n, (long long)blk->GetDiscardPadding());
      ++n;
      const mkvparser::BlockEntry* nx = nullptr;
      { LibScope ls; rc = c->GetNext(e, nx); }
      if (rc < 0) Fail(K + ":readback-cluster", "reading the next entry failed (%ld)", rc);
      e = nx;
    }
    LibScope ls;
    c = seg->GetNext(c);
  }
  if (n != v.blocks.size()) Fail(K + ":readback-missing", "%zu of %zu frames read back", n, v.blocks.size());
}

}  // namespace sim
