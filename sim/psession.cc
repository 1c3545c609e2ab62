#include "psession.h"

#include <cfloat>
#include <climits>

namespace sim {
namespace {
typedef unsigned long long ull;
typedef long long ll;
std::string S(const char* p) { return p ? p : "-"; }
std::string HexOf(const uint8_t* p, size_t n) { return Fmt("%zu:%016llx", n, (ull)Fnv(p, n)); }
std::string OrDash(float f) { return f == FLT_MAX ? std::string(" -") : Fmt(" %.9g", f); }
}  // namespace
#define L(expr) ([&]() { LibScope ls_; return (expr); }())

void PSession::Destroy() {
  LibScope ls;
  delete seg; seg = nullptr;
  delete hdr; hdr = nullptr;
}

bool PSession::Error(const char* what, ll st) {
  Ev("error %s %lld", what, st);
  if (!tolerant) Fail(K + ":error", "%s reports error %lld on a valid document", what, st);
  err = true; err_at = what; err_code = st;
  return false;
}

bool PSession::Wait(const char* what, ll st, bool underflow, ll need) {
  if (!underflow) return Error(what, st);
  ++need_more;
  SimSteps(1);
  Count("waits");
  if (rd.avail >= rd.d_->size() && rd.total_known) {
    if (tolerant) return Error(what, st);
    Fail(K + ":stuck", "%s still asks for more data (%lld, wants up to byte %lld) when the whole file of %zu bytes has arrived", what, st, need, rd.d_->size());
  }
  if (rd.total_known && !tolerant && need > (ll)rd.d_->size()) Fail(K + ":ask-past-end", "%s asks for bytes up to %lld of a %zu-byte file", what, need, rd.d_->size());
  if (rd.avail >= rd.d_->size()) {       // the stream is closed: its length is now known
    rd.total_known = true;
    Ev("stream closed");
    return true;
  }
  uint64_t step;
  switch (Draw(4, "net.how")) {
    case 0: step = 1; break;
    case 1: step = need > (ll)rd.avail ? (uint64_t)need - rd.avail : 1; break;
    case 2: step = Range(1, step_max, "net.step"); break;
    default: step = Range(1, step_max * 16, "net.step"); break;
  }
  step = std::max<uint64_t>(step, rd.d_->size() >> 12);        // very large files arrive in larger pieces
  rd.avail += step;
  if (rd.avail > rd.d_->size()) rd.avail = rd.d_->size();
  FaultCount("data_late");
  Ev("wait %s %lld -> avail %llu", what, st, (ull)rd.avail);
  return true;
}

bool PSession::Open() {
  { LibScope ls; hdr = new mkvparser::EBMLHeader; }
  for (;;) {
    ll st = L(hdr->Parse(&rd, hpos));
    if (st == 0) break;
    if (!Wait("EBMLHeader::Parse", st, st > 0 || st == mkvparser::E_BUFFER_NOT_FULL, st)) return false;
  }
  for (;;) {
    ll st = L(mkvparser::Segment::CreateInstance(&rd, hpos, seg));
    if (st == 0) break;
    if (!Wait("Segment::CreateInstance", st, st > 0 || st == mkvparser::E_BUFFER_NOT_FULL, st)) return false;
  }
  for (;;) {
    ll st = L(seg->ParseHeaders());
    if (st == 0) break;
    if (!Wait("Segment::ParseHeaders", st, st > 0 || st == mkvparser::E_BUFFER_NOT_FULL, st)) return false;
  }
  Observe();
  return true;
}

void PSession::Observe() {
  meta.clear();
  auto m = [&](const std::string& s) { meta.push_back(s); };
  m(Fmt("ebml pos=%lld ver=%lld/%lld max=%lld/%lld doc=%s %lld/%lld", hpos, hdr->m_version, hdr->m_readVersion, hdr->m_maxIdLength, hdr->m_maxSizeLength, S(hdr->m_docType).c_str(), hdr->m_docTypeVersion, hdr->m_docTypeReadVersion));
  const mkvparser::SegmentInfo* in = seg->GetInfo();
  m(Fmt("info scale=%lld dur=%lld mux=%s wr=%s title=%s", in->GetTimeCodeScale(), in->GetDuration(), S(in->GetMuxingAppAsUTF8()).c_str(), S(in->GetWritingAppAsUTF8()).c_str(), S(in->GetTitleAsUTF8()).c_str()));
  const mkvparser::Tracks* tr = seg->GetTracks();
  for (unsigned long i = 0; i < tr->GetTracksCount(); ++i) {
    const mkvparser::Track* t = tr->GetTrackByIndex(i);
    if (!t) { m("null track"); continue; }
    size_t pl = 0;
    const unsigned char* pv = t->GetCodecPrivate(pl);
    std::string av, enc;
    if (t->GetType() == mkvparser::Track::kVideo) {
      const mkvparser::VideoTrack* v = static_cast<const mkvparser::VideoTrack*>(t);
      std::string colour = " nocolour", proj = " noproj";
      if (mkvparser::Colour* c = v->GetColour()) {
        ll val[13] = {c->matrix_coefficients, c->bits_per_channel, c->chroma_subsampling_horz, c->chroma_subsampling_vert, c->cb_subsampling_horz, c->cb_subsampling_vert, c->chroma_siting_horz, c->chroma_siting_vert, c->range, c->transfer_characteristics, c->primaries, c->max_cll, c->max_fall};
        colour = " colour(";
        for (ll x : val) colour += Fmt("%lld ", x);
        if (mkvparser::MasteringMetadata* mm = c->mastering_metadata) {
          colour += "mm";
          mkvparser::PrimaryChromaticity* pc[4] = {mm->r, mm->g, mm->b, mm->white_point};
          for (auto* x : pc) colour += x ? Fmt(" %.9g,%.9g", x->x, x->y) : std::string(" -");
          colour += OrDash(mm->luminance_max) + OrDash(mm->luminance_min);
        }
        colour += ")";
      }
      if (mkvparser::Projection* p = v->GetProjection()) {
        int pt; memcpy(&pt, &p->type, sizeof pt);
        proj = Fmt(" proj(%d %s", pt, p->private_data ? HexOf(p->private_data, p->private_data_length).c_str() : "-");
        proj += OrDash(p->pose_yaw) + OrDash(p->pose_pitch) + OrDash(p->pose_roll) + ")";
      }
      ll dw = v->GetDisplayWidth(), dh = v->GetDisplayHeight();
      av = Fmt(" video %lldx%lld disp %lldx%lld u%lld st%lld fr%.17g cs=%s%s%s", v->GetWidth(), v->GetHeight(), dw, dh, v->GetDisplayUnit(), v->GetStereoMode(), v->GetFrameRate(), S(v->GetColourSpace()).c_str(), colour.c_str(), proj.c_str());
    } else if (t->GetType() == mkvparser::Track::kAudio) {
      const mkvparser::AudioTrack* a = static_cast<const mkvparser::AudioTrack*>(t);
      av = Fmt(" audio %.17g ch%lld bd%lld", a->GetSamplingRate(), a->GetChannels(), a->GetBitDepth());
    }
    for (unsigned long k = 0; k < t->GetContentEncodingCount(); ++k) {
      const mkvparser::ContentEncoding* ce = t->GetContentEncodingByIndex(k);
      enc += Fmt(" enc(%llu,%llu,%llu", ce->encoding_order(), ce->encoding_scope(), ce->encoding_type());
      for (unsigned long x = 0; x < ce->GetCompressionCount(); ++x) {
        auto* c = ce->GetCompressionByIndex(x);
        enc += Fmt(" comp %llu %s", c->algo, HexOf(c->settings, c->settings ? c->settings_len : 0).c_str());
      }
      for (unsigned long x = 0; x < ce->GetEncryptionCount(); ++x) {
        auto* c = ce->GetEncryptionByIndex(x);
        enc += Fmt(" crypt %llu %s %s %s %llu %llu %llu", c->algo, HexOf(c->key_id, c->key_id ? c->key_id_len : 0).c_str(), HexOf(c->signature, c->signature ? c->signature_len : 0).c_str(), HexOf(c->sig_key_id, c->sig_key_id ? c->sig_key_id_len : 0).c_str(), c->sig_algo, c->sig_hash_algo, c->aes_settings.cipher_mode);
      }
      enc += ")";
    }
    m(Fmt("track %ld type=%ld uid=%llu name=%s lang=%s codec=%s cname=%s priv=%s lacing=%d dd=%llu cd=%llu pr=%llu%s%s", t->GetNumber(), t->GetType(), t->GetUid(), S(t->GetNameAsUTF8()).c_str(), S(t->GetLanguage()).c_str(), S(t->GetCodecId()).c_str(), S(t->GetCodecNameAsUTF8()).c_str(), HexOf(pv, pl).c_str(), t->GetLacing(), t->GetDefaultDuration(), t->GetCodecDelay(), t->GetSeekPreRoll(), av.c_str(), enc.c_str()));
    if (tr->GetTrackByNumber(t->GetNumber()) != t) m("lookup by number differs");
  }
  if (const mkvparser::Chapters* c = seg->GetChapters()) {
    for (int i = 0; i < c->GetEditionCount(); ++i) {
      std::string line = "edition";
      const mkvparser::Chapters::Edition* e = c->GetEdition(i);
      for (int k = 0; k < e->GetAtomCount(); ++k) {
        const mkvparser::Chapters::Atom* a = e->GetAtom(k);
        line += Fmt(" atom(%llu %s %lld %lld", a->GetUID(), S(a->GetStringUID()).c_str(), a->GetStartTimecode(), a->GetStopTimecode());
        ll sc = in->GetTimeCodeScale();
        auto scaled = [&](ll t) { ll r; return t < 0 || __builtin_mul_overflow(t, sc, &r) ? -1LL : r; };
        if (a->GetStartTime(c) != scaled(a->GetStartTimecode()) || a->GetStopTime(c) != scaled(a->GetStopTimecode())) line += " scaled time wrong";
        for (int x = 0; x < a->GetDisplayCount(); ++x) {
          const mkvparser::Chapters::Display* ds = a->GetDisplay(x);
          line += Fmt(" disp(%s,%s,%s)", S(ds->GetString()).c_str(), S(ds->GetLanguage()).c_str(), S(ds->GetCountry()).c_str());
        }
        line += ")";
      }
      m(line);
    }
  }
  if (const mkvparser::Tags* t = seg->GetTags()) {
    for (int i = 0; i < t->GetTagCount(); ++i) {
      std::string line = "tag";
      const mkvparser::Tags::Tag* g = t->GetTag(i);
      for (int k = 0; k < g->GetSimpleTagCount(); ++k) {
        const mkvparser::Tags::SimpleTag* s = g->GetSimpleTag(k);
        line += Fmt(" (%s=%s)", S(s->GetTagName()).c_str(), S(s->GetTagString()).c_str());
      }
      m(line);
    }
  }
  if (const mkvparser::SeekHead* s = seg->GetSeekHead()) {
    std::string line = "seekhead";
    for (int i = 0; i < s->GetCount(); ++i) {
      const mkvparser::SeekHead::Entry* e = s->GetEntry(i);
      line += Fmt(" (%llx@%lld el %lld+%lld)", (ull)e->id, e->pos, e->element_start, e->element_size);
    }
    for (int i = 0; i < s->GetVoidElementCount(); ++i) {
      const mkvparser::SeekHead::VoidElement* e = s->GetVoidElement(i);
      line += Fmt(" void %lld+%lld", e->element_start, e->element_size);
    }
    m(line);
  }
  for (auto& l : meta) EvHash(l.data(), l.size());
}

void PSession::JudgeMeta(bool fault) {
  if (truncated) {      // whole elements may be cut off; the others are right
    size_t p = 0;
    for (auto& g : meta) {
      while (p < d.meta.size() && d.meta[p] != g) ++p;
      if (p == d.meta.size()) Fail(K + ":meta", "a truncated file reports a value that is not in the document: %s", g.c_str());
      ++p;
    }
    return;
  }
  for (size_t i = 0; i < d.meta.size() || i < meta.size(); ++i) {
    std::string w = i < d.meta.size() ? d.meta[i] : "(nothing)", g = i < meta.size() ? meta[i] : "(nothing)";
    if (w == g) continue;
    // An index entry that could not be read may be absent (it is only a hint).
    if (fault && w.compare(0, 8, "seekhead") == 0 && g.compare(0, 8, "seekhead") == 0) {
      size_t p = 8, q = 8; bool sub = true;
      while (q < g.size()) {
        size_t e = g.find_first_of(")", q);
        std::string part = e == std::string::npos ? g.substr(q) : g.substr(q, e + 1 - q);
        size_t at = w.find(part, p);
        if (at == std::string::npos) { sub = false; break; }
        p = at + part.size(); q += part.size();
      }
      if (sub) continue;
    }
    if (fault && w.compare(0, 6, "track ") == 0 && w.size() > g.size() && w.compare(0, g.size(), g) == 0 && w.compare(g.size(), 5, " enc(") == 0)
      Fail(K + ":content-encodings-dropped", "a failure while reading the content encodings of a track is not reported: the track shows only the first of them\n  in file: %s\n  reported: %s", w.c_str(), g.c_str());
    Fail(K + ":meta", "header value differs\n  in file: %s\n  reported: %s", w.c_str(), g.c_str());
  }
}

void PSession::ReadFrames(const mkvparser::Block* b, size_t bi) {
  const PBlock& w = d.blocks[bi];
  for (size_t i = 0; i < w.frames.size() && !err; ++i) {
    const mkvparser::Block::Frame& f = b->GetFrame((int)i);
    if ((ull)f.pos != w.frames[i].pos || (ull)f.len != w.frames[i].len) Fail(K + ":frame", "block %zu frame %zu at %lld+%ld, in the file at %llu+%llu", bi, i, f.pos, f.len, (ull)w.frames[i].pos, (ull)w.frames[i].len);
    Bytes buf(f.len);
    for (;;) {
      long st = L(f.Read(&rd, buf.data()));
      if (st == 0) break;
      if (!Wait("Frame::Read", st, st > 0 || st == mkvparser::E_BUFFER_NOT_FULL, f.pos + f.len)) return;
    }
    if (memcmp(buf.data(), d.b.data() + f.pos, f.len) != 0) Fail(K + ":frame-data", "block %zu frame %zu: bytes differ", bi, i);
  }
}

void PSession::CheckBlock(const mkvparser::Cluster* c, const mkvparser::BlockEntry* e, size_t bi) {
  if (bi >= d.blocks.size()) Fail(K + ":extra-block", "more blocks reported than the document has (%zu)", d.blocks.size());
  const PBlock& w = d.blocks[bi];
  const mkvparser::Block* b = e->GetBlock();
  if (!b) Fail(K + ":block", "block %zu has no block", bi);
  std::string want = Fmt("track %d tc %lld time %lld key %d inv %d lacing %d n %zu dp %lld idx %d", w.track, (ll)d.clusters[w.cluster].tc + w.rel, (ll)(((ll)d.clusters[w.cluster].tc + w.rel) * (ll)d.scale), w.key, w.invisible, w.lacing, w.frames.size(), w.group ? (ll)w.discard : 0, w.index);
  ll tc = (ll)d.clusters[w.cluster].tc + w.rel;
  std::string got;
  if (tc >= 0) {
    got = Fmt("track %lld tc %lld time %lld key %d inv %d lacing %d n %d dp %lld idx %ld", b->GetTrackNumber(), b->GetTimeCode(c), b->GetTime(c), b->IsKey(), b->IsInvisible(), (int)b->GetLacing(), b->GetFrameCount(), b->GetDiscardPadding(), e->GetIndex());
  } else {   // times before zero: GetTime() is outside its contract
    got = Fmt("track %lld tc %lld time %lld key %d inv %d lacing %d n %d dp %lld idx %ld", b->GetTrackNumber(), b->GetTimeCode(c), (ll)(tc * (ll)d.scale), b->IsKey(), b->IsInvisible(), (int)b->GetLacing(), b->GetFrameCount(), b->GetDiscardPadding(), e->GetIndex());
  }
  if (want != got) Fail(K + ":block", "block %zu differs\n  in file:  %s\n  reported: %s", bi, want.c_str(), got.c_str());
  if ((e->GetKind() == mkvparser::BlockEntry::kBlockGroup) != w.group || e->GetCluster() != c) Fail(K + ":block", "block %zu: kind or cluster differs", bi);
  if (w.group) {
    const mkvparser::BlockGroup* g = static_cast<const mkvparser::BlockGroup*>(e);
    if (g->GetPrevTimeCode() != w.prev || g->GetNextTimeCode() != w.next || g->GetDurationTimeCode() != w.dur)
      Fail(K + ":group", "block %zu: references %lld/%lld duration %lld, in the file %lld/%lld %lld", bi, g->GetPrevTimeCode(), g->GetNextTimeCode(), g->GetDurationTimeCode(), (ll)w.prev, (ll)w.next, (ll)w.dur);
  }
  ReadFrames(b, bi);
}

// Reads all blocks of cluster number ci. how: 0 GetFirst/GetNext, 1
// GetEntry(index), 2 explicit Parse() steps followed by GetEntry.
bool PSession::ReadCluster(const mkvparser::Cluster* c, size_t ci, int how) {
  if (ci >= d.clusters.size()) Fail(K + ":extra-cluster", "more clusters reported than the document has (%zu)", d.clusters.size());
  const PCluster& w = d.clusters[ci];
  if ((ull)c->GetPosition() != w.pos || (ull)c->m_element_start != w.pos + d.seg_body) Fail(K + ":cluster", "cluster %zu at %lld, in the file at %llu", ci, c->GetPosition(), (ull)w.pos);
  size_t n = 0;
  if (how == 0) {
    const mkvparser::BlockEntry* e = nullptr;
    for (;;) {
      const mkvparser::BlockEntry* nx = nullptr;
      long st;
      for (;;) {
        st = e ? L(c->GetNext(e, nx)) : L(c->GetFirst(nx));
        if (st == 0) break;
        if (st > 0) Fail(K + ":status", "Cluster::GetFirst/GetNext returned %ld", st);
        if (!Wait("Cluster::GetFirst/GetNext", st, st == mkvparser::E_BUFFER_NOT_FULL, -1)) return false;
      }
      if (!nx || nx->EOS()) break;
      if (n >= w.blocks.size()) Fail(K + ":extra-block", "cluster %zu reports more than its %zu blocks", ci, w.blocks.size());
      CheckBlock(c, nx, w.blocks[n]);
      if (err) return false;
      ++n; ++blocks_seen;
      e = nx;
    }
  } else {
    for (;;) {
      const mkvparser::BlockEntry* e = nullptr;
      ll pos = -1; long len = -1;
      long st;
      if (how == 2) {
        for (;;) {
          st = L(c->Parse(pos, len));
          if (st >= 0) break;
          if (!Wait("Cluster::Parse", st, st == mkvparser::E_BUFFER_NOT_FULL, pos + len)) return false;
        }
        if (st == 1 && n >= (size_t)(c->GetEntryCount() < 0 ? 0 : c->GetEntryCount())) break;
      }
      long r = L(c->GetEntry((long)n, e));
      if (r == 0) break;      // no such entry
      if (r < 0) {            // not parsed yet
        if (r != mkvparser::E_BUFFER_NOT_FULL) Fail(K + ":status", "Cluster::GetEntry returned %ld", r);
        if (how == 2) Fail(K + ":entry", "cluster %zu: Parse() succeeded but entry %zu is not there", ci, n);
        for (;;) {
          st = L(c->Parse(pos, len));
          if (st >= 0) break;
          if (!Wait("Cluster::Parse", st, st == mkvparser::E_BUFFER_NOT_FULL, pos + len)) return false;
        }
        if (st == 1) break;
        continue;
      }
      if (!e) Fail(K + ":entry", "cluster %zu entry %zu is null", ci, n);
      if (n >= w.blocks.size()) Fail(K + ":extra-block", "cluster %zu reports more than its %zu blocks", ci, w.blocks.size());
      CheckBlock(c, e, w.blocks[n]);
      if (err) return false;
      ++n; ++blocks_seen;
    }
  }
  if (n < w.blocks.size() && truncated) return !err;     // cut off: a right prefix is all there is
  if (n != w.blocks.size()) Fail(K + ":missing-block", "cluster %zu: %zu of %zu blocks reported, and no error", ci, n, w.blocks.size());
  CheckClusterTimes(c, ci);
  return !err;
}

void PSession::CheckClusterTimes(const mkvparser::Cluster* c, size_t ci) {
  const PCluster& w = d.clusters[ci];
  if ((ull)c->GetTimeCode() != w.tc || (ull)c->GetTime() != w.tc * d.scale) Fail(K + ":cluster-time", "cluster %zu: time %lld / %lld, in the file %llu", ci, c->GetTimeCode(), c->GetTime(), (ull)w.tc);
  const PBlock& f = d.blocks[w.blocks.front()]; const PBlock& l = d.blocks[w.blocks.back()];
  ll ft = (ll)w.tc + f.rel, lt = (ll)w.tc + l.rel;
  if (ft >= 0) { ll t = L(c->GetFirstTime()); if (t != ft * (ll)d.scale) Fail(K + ":cluster-time", "cluster %zu: first time %lld, in the file %lld", ci, t, ft * (ll)d.scale); }
  if (lt >= 0) { ll t = L(c->GetLastTime()); if (t != lt * (ll)d.scale) Fail(K + ":cluster-time", "cluster %zu: last time %lld, in the file %lld", ci, t, lt * (ll)d.scale); }
  if (c->GetEntryCount() != (long)w.blocks.size()) Fail(K + ":entry-count", "cluster %zu: %ld entries, in the file %zu", ci, c->GetEntryCount(), w.blocks.size());
}

// style 0: load every cluster, then iterate. 1: read each cluster as soon as
// it is loaded. 2: walk with Segment::ParseNext. 3: load one cluster, read a
// part, mix.
void PSession::ReadAll(int style) {
  const int how = (int)Draw(3, "rd.how");
  auto load = [&]() -> int {      // 0 loaded, 1 no more, -1 error
    for (;;) {
      ll pos = -1; long len = 0;
      long st = L(seg->LoadCluster(pos, len));
      if (st == 0 || st == 1) return (int)st;
      if (st > 1) Fail(K + ":status", "LoadCluster returned %ld", st);
      if (!Wait("Segment::LoadCluster", st, st == mkvparser::E_BUFFER_NOT_FULL, pos + len)) return -1;
    }
  };
  if (style == 0) {
    for (;;) { int r = load(); if (r < 0) return; if (r == 1) break; }
    size_t ci = 0;
    const mkvparser::Cluster* c = L(seg->GetFirst());
    while (c && !c->EOS()) {
      if (!ReadCluster(c, ci, how)) return;
      ++ci;
      c = L(seg->GetNext(c));
    }
    if (ci != d.clusters.size() && !truncated) Fail(K + ":missing-cluster", "%zu of %zu clusters reported, and no error", ci, d.clusters.size());
    if (seg->GetCount() != ci) Fail(K + ":cluster-count", "%lu clusters counted, in the file %zu", seg->GetCount(), d.clusters.size());
  } else if (style == 1) {
    size_t ci = 0;
    for (;;) {
      int r = load();
      if (r < 0) return;
      if (r == 1) break;
      const mkvparser::Cluster* c = seg->GetLast();
      if (!c || c->EOS()) Fail(K + ":cluster", "LoadCluster reported a cluster but there is none");
      if (!ReadCluster(c, ci, how)) return;
      ++ci;
    }
    if (ci != d.clusters.size() && !truncated) Fail(K + ":missing-cluster", "%zu of %zu clusters reported, and no error", ci, d.clusters.size());
  } else {
    int r = load();
    if (r < 0) return;
    if (r == 1) { if (!d.clusters.empty() && !truncated) Fail(K + ":missing-cluster", "no cluster reported, and no error"); return; }
    const mkvparser::Cluster* c = seg->GetFirst();
    size_t ci = 0;
    while (c && !c->EOS()) {
      if (!ReadCluster(c, ci, how)) return;
      ++ci;
      const mkvparser::Cluster* nx = nullptr;
      long st;
      for (;;) {
        ll pos = -1; long len = 0;
        st = L(seg->ParseNext(c, nx, pos, len));
        if (st == 0 || st == 1) break;
        if (st > 1) Fail(K + ":status", "ParseNext returned %ld", st);
        if (!Wait("Segment::ParseNext", st, st == mkvparser::E_BUFFER_NOT_FULL, pos + len)) return;
      }
      if (st == 1) break;
      c = nx;
    }
    if (ci != d.clusters.size() && !truncated) Fail(K + ":missing-cluster", "ParseNext visited %zu of %zu clusters, and no error", ci, d.clusters.size());
  }
}

void PSession::CheckCue(const mkvparser::CuePoint* cp, size_t i) {
  const PCue& w = d.cues[i];
  if ((ull)cp->GetTimeCode() != w.time || (ull)cp->GetTime(seg) != w.time * d.scale || (ull)cp->m_element_start != w.pos || (ull)cp->m_element_size != w.size)
    Fail(K + ":cue", "cue %zu: time %lld at %lld+%lld, in the file %llu at %llu+%llu", i, cp->GetTimeCode(), cp->m_element_start, cp->m_element_size, (ull)w.time, (ull)w.pos, (ull)w.size);
  for (auto& t : d.tracks) {
    const PCuePos* p = nullptr;
    for (auto& x : w.tp) if (x.track == t.number) { p = &x; break; }
    const mkvparser::CuePoint::TrackPosition* g = cp->Find(seg->GetTracks()->GetTrackByNumber(t.number));
    if (!p != !g) Fail(K + ":cue", "cue %zu track %d: position %s", i, t.number, g ? "reported but not in the file" : "missing");
    if (p && ((ull)g->m_pos != p->pos || (ull)g->m_block != p->block || g->m_track != p->track)) Fail(K + ":cue", "cue %zu track %d: cluster %lld block %lld, in the file %llu block %llu", i, t.number, g->m_pos, g->m_block, (ull)p->pos, (ull)p->block);
  }
}

void PSession::LoadCues() {
  const mkvparser::Cues* cues = seg->GetCues();
  if (!cues) {
    if (d.has_cues && !truncated) Fail(K + ":cues", "the cues of the document are not reported");
    return;
  }
  if (!d.has_cues) Fail(K + ":cues", "cues reported, but the document has none");
  size_t before = rd.faults;
  bool afault = AllocFaultFired();
  while (!cues->DoneParsing()) { if (!L(cues->LoadCuePoint())) break; SimSteps(1); }
  bool fault = rd.faults != before || AllocFaultFired() != afault || truncated || err;
  const mkvparser::CuePoint* cp = cues->GetFirst();
  size_t n = 0;
  while (cp) {
    if (n >= d.cues.size()) Fail(K + ":cues", "more cue points reported than the document has");
    CheckCue(cp, n);
    ++n;
    if (n == (size_t)cues->GetCount() && cues->GetLast() != cp) Fail(K + ":cues", "GetLast differs");
    cp = cues->GetNext(cp);
  }
  cues_seen = n;
  if (n != d.cues.size() && !fault) Fail(K + ":cues", "%zu of %zu cue points reported", n, d.cues.size());
}

}  // namespace sim
