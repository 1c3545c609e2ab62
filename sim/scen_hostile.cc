// mkvparser on arbitrary bytes: every public call is made on whatever the
// parser claims to have found.
#include <algorithm>

#include "psession.h"

namespace sim {
namespace {
typedef unsigned long long ull;
typedef long long ll;
#define L(expr) ([&]() { LibScope ls_; return (expr); }())

}  // namespace
void MutateBytes(Bytes* pdoc, int n) {
  Bytes& doc = *pdoc;
  auto id = [](Bytes* b, uint32_t v) { for (int s = v > 0xFFFFFF ? 24 : v > 0xFFFF ? 16 : v > 0xFF ? 8 : 0; s >= 0; s -= 8) b->push_back((uint8_t)(v >> s)); };
  for (int i = 0; i < n && !doc.empty(); ++i) {
    size_t at = Draw(doc.size(), "h.at");
    if (Chance(1, 2, "h.struct")) {     // aim at an element header: find an id nearby
      for (size_t k = 0; k < 40 && at + k + 1 < doc.size(); ++k) {
        bool hit = false;
        for (size_t q = 0; q < kNumHostileIds; ++q) {
          const uint32_t v = kHostileIds[q];
          Bytes e; id(&e, v);
          if (at + k + e.size() < doc.size() && memcmp(&doc[at + k], e.data(), e.size()) == 0) { at += k + e.size(); hit = true; break; }
        }
        if (hit) break;
      }
    }
    switch (Draw(8, "h.mut")) {
      case 0: doc[at] = (uint8_t)Draw(256, "h.byte"); break;
      case 1: doc[at] ^= (uint8_t)(1u << Draw(8, "h.bit")); break;
      case 2: doc[at] = Draw(2, "h.mff") ? 0xff : 0; break;
      case 3: { size_t len = std::min<size_t>(1 + Magnitude(64, "h.mlen"), doc.size() - at); doc.erase(doc.begin() + at, doc.begin() + at + len); break; }
      case 4: { Bytes p = MakePayload(Draw(1 << 16, "h.mv"), 1 + Magnitude(30, "h.mlen")); doc.insert(doc.begin() + at, p.begin(), p.end()); break; }
      case 5: {
        size_t len = std::min<size_t>(1 + Magnitude(200, "h.mlen"), doc.size() - at);
        Bytes p(doc.begin() + at, doc.begin() + at + len);
        size_t to = Draw(doc.size() + 1, "h.to");
        doc.insert(doc.begin() + to, p.begin(), p.end());
        break;
      }
      case 6: {       // overwrite with an extreme integer
        static const uint64_t ext[] = {0, 1, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0xFFFFFFFFFFFFFFFFULL, 0x00FFFFFFFFFFFFFFULL, 0x01FFFFFFFFFFFFFEULL, 0x7FFFFFFF, 0x80000000};
        uint64_t v = ext[Draw(9, "h.ext")];
        int w = (int)Range(1, 8, "h.extw");
        for (int k = 0; k < w && at + k < doc.size(); ++k) doc[at + k] = (uint8_t)(v >> (8 * (w - 1 - k)));
        break;
      }
      default: doc.resize(at); break;
    }
  }
}
Bytes DrawHostile() {
  Bytes doc;
  int mode = (int)Draw(5, "h.mode");
  auto id = [](Bytes* b, uint32_t v) { for (int s = v > 0xFFFFFF ? 24 : v > 0xFFFF ? 16 : v > 0xFF ? 8 : 0; s >= 0; s -= 8) b->push_back((uint8_t)(v >> s)); };
  auto size = [](Bytes* b, uint64_t v, int n) {
    while (n < 1 || (n < 8 && v >= (1ULL << (7 * n)) - 1)) ++n;
    uint64_t m = v | (1ULL << (7 * n));
    for (int i = n - 1; i >= 0; --i) b->push_back((uint8_t)(m >> (8 * i)));
  };
  if (mode == 0) {
    if (Chance(3, 4, "h.hdr")) { static const uint8_t h[] = {0x1A, 0x45, 0xDF, 0xA3, 0x87, 0x42, 0x82, 0x84, 'w', 'e', 'b', 'm', 0x18, 0x53, 0x80, 0x67, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}; doc.assign(h, h + sizeof h); }
    int n = (int)Range(1, 60, "h.n");
    for (int i = 0; i < n; ++i) {
      switch (Draw(5, "h.kind")) {
        case 0: case 1: case 2:
          id(&doc, kHostileIds[Draw(kNumHostileIds, "h.id")]);
          if (Chance(1, 8, "h.unk")) { int k = (int)Range(1, 8, "h.unklen"); doc.push_back((uint8_t)((1 << (8 - k)) | ((1 << (8 - k)) - 1))); doc.insert(doc.end(), k - 1, 0xFF); }
          else size(&doc, Magnitude(Chance(1, 8, "h.huge") ? (1ULL << 55) : 60, "h.size"), (int)Draw(9, "h.szlen"));
          break;
        case 3: { Bytes p = MakePayload(Draw(1 << 16, "h.v"), Magnitude(40, "h.len")); doc.insert(doc.end(), p.begin(), p.end()); break; }
        default: doc.insert(doc.end(), Draw(12, "h.zeros"), (uint8_t)(Draw(2, "h.ff") ? 0xff : 0)); break;
      }
    }
    return doc;
  }
  PDocOpts o;
  o.max_clusters = 4; o.max_blocks = 4;
  o.wild = Chance(1, 6, "h.wild");
  if (mode >= 2 && Chance(1, 2, "h.tree")) o.tree_damage = 1 + (int)Magnitude(8, "h.ntree");
  PDoc d = DrawPDoc(o);
  doc = d.b;
  if (o.tree_damage && Chance(2, 3, "h.treeonly")) return doc;
  if (!o.wild || Chance(1, 2, "h.wmut")) MutateBytes(&doc, (int)Range(1, mode == 4 ? 24 : 4, "h.nmut"));
  return doc;
}
namespace {

struct Prober {
  PSession& s;
  uint64_t budget = 3000;
  bool Spend() { SimSteps(1); if (!budget) return false; --budget; return true; }

  void BlockEntry(const mkvparser::BlockEntry* e) {
    if (!e || e->EOS()) return;
    const mkvparser::Block* b = e->GetBlock();
    const mkvparser::Cluster* c = e->GetCluster();
    if (!b || !c) Fail("C15:block", "a block entry has no block or cluster");
    ll sink = b->GetTrackNumber() + b->GetTimeCode(c) + b->IsKey() + b->IsInvisible() + (int)b->GetLacing() + b->GetDiscardPadding() + e->GetIndex();
    EvHash(&sink, sizeof sink);
    sink = L(b->GetTime(c));
    EvHash(&sink, sizeof sink);
    int n = b->GetFrameCount();
    if (n < 1) Fail("C15:block", "a block reports %d frames", n);
    for (int i = 0; i < n && Spend(); ++i) {
      const mkvparser::Block::Frame& f = b->GetFrame(i);
      if (f.pos < 0 || f.len < 0) Fail("C15:frame", "frame %d at %lld has length %ld", i, f.pos, f.len);
      if ((ull)f.pos + (ull)f.len > s.rd.d_->size()) { Count("c15.frame_past_end"); continue; }
      Bytes buf(f.len + 1);
      long st = L(f.Read(&s.rd, buf.data()));
      if (st == 0 && memcmp(buf.data(), s.rd.d_->data() + f.pos, f.len) != 0) Fail("C15:frame", "frame bytes differ from the file");
      Count("c15.frames");
    }
  }
  void Cluster(const mkvparser::Cluster* c, int how) {
    if (!c || c->EOS()) return;
    const mkvparser::BlockEntry* e = nullptr;
    if (how == 0) {
      long st = L(c->GetFirst(e));
      while (st == 0 && e && !e->EOS() && Spend()) {
        BlockEntry(e);
        const mkvparser::BlockEntry* n = nullptr;
        st = L(c->GetNext(e, n));
        e = n;
      }
    } else if (how == 1) {
      for (long i = 0; Spend(); ++i) {
        long r = L(c->GetEntry(i, e));
        if (r == 0) break;
        if (r < 0) { ll pos; long len; if (L(c->Parse(pos, len)) != 0) break; --i; continue; }
        BlockEntry(e);
      }
    } else {
      if (L(c->GetLast(e)) == 0) BlockEntry(e);
    }
    ll t = L(c->GetTimeCode());
    EvHash(&t, sizeof t);
    t = L(c->GetTime());
    EvHash(&t, sizeof t);
    if (Chance(1, 4, "h.cft")) { t = L(c->GetFirstTime()); EvHash(&t, sizeof t); t = L(c->GetLastTime()); EvHash(&t, sizeof t); }
    if (Chance(1, 4, "h.cgt")) {
      const mkvparser::Tracks* tr = s.seg->GetTracks();
      for (unsigned long i = 0; tr && i < tr->GetTracksCount() && i < 8; ++i)
        if (const mkvparser::Track* k = tr->GetTrackByIndex(i)) BlockEntry(L(c->GetEntry(k, (ll)Magnitude(1000000000, "h.t"))));
    }
  }
  void All() {
    const mkvparser::Tracks* tr = s.seg->GetTracks();
    if (s.seg->GetInfo()) s.Observe();
    int how = (int)Draw(3, "h.how");
    uint64_t nload = Chance(1, 3, "h.few") ? Draw(4, "h.nload") : 10000;
    for (uint64_t i = 0; i < nload && Spend(); ++i) {
      ll pos; long len;
      long st = L(s.seg->LoadCluster(pos, len));
      if (st < 0 && Chance(1, 4, "h.retry")) { st = L(s.seg->LoadCluster(pos, len)); }
      if (st != 0) break;
      if (Chance(1, 3, "h.now")) Cluster(L(s.seg->GetLast()), how);
    }
    const mkvparser::Cluster* c = L(s.seg->GetFirst());
    while (c && !c->EOS() && Spend()) {
      Cluster(c, how);
      if (Chance(1, 3, "h.pn")) {
        const mkvparser::Cluster* n = nullptr; ll pos; long len;
        if (L(s.seg->ParseNext(c, n, pos, len)) != 0) break;
        c = n;
      } else c = L(s.seg->GetNext(c));
    }
    if (const mkvparser::Cues* q = s.seg->GetCues()) {
      while (!q->DoneParsing() && Spend()) if (!L(q->LoadCuePoint())) break;
      const mkvparser::CuePoint* cp = q->GetFirst();
      for (int i = 0; cp && i < 20 && Spend(); ++i) {
        ll t = L(cp->GetTime(s.seg));
        EvHash(&t, sizeof t);
        for (unsigned long k = 0; tr && k < tr->GetTracksCount() && k < 6; ++k) {
          const mkvparser::Track* track = tr->GetTrackByIndex(k);
          if (!track) continue;
          const mkvparser::CuePoint* fcp = nullptr; const mkvparser::CuePoint::TrackPosition* tp = nullptr;
          if (L(q->Find((ll)Magnitude(1ULL << 62, "h.ct"), track, fcp, tp)) && tp) BlockEntry(L(q->GetBlock(fcp, tp)));
          if (const mkvparser::CuePoint::TrackPosition* p = cp->Find(track)) BlockEntry(L(q->GetBlock(cp, p)));
        }
        cp = q->GetNext(cp);
      }
    }
    for (unsigned long k = 0; tr && k < tr->GetTracksCount() && k < 6; ++k) {
      const mkvparser::Track* track = tr->GetTrackByIndex(k);
      if (!track) continue;
      const mkvparser::BlockEntry* e = nullptr;
      long st = L(track->GetFirst(e));
      for (int i = 0; i < 30 && st == 0 && e && !e->EOS() && Spend(); ++i) {
        BlockEntry(e);
        const mkvparser::BlockEntry* n = nullptr;
        st = L(track->GetNext(e, n));
        e = n;
      }
      if (Chance(1, 2, "h.seek")) { st = L(track->Seek((ll)Magnitude(1ULL << 40, "h.st"), e)); if (st == 0) BlockEntry(e); }
    }
    if (Chance(1, 3, "h.fc")) { const mkvparser::Cluster* f = L(s.seg->FindCluster((ll)Magnitude(1ULL << 40, "h.fct"))); if (f && !f->EOS()) Cluster(f, how); }
    if (Chance(1, 3, "h.pl")) { const mkvparser::Cluster* f = L(s.seg->FindOrPreloadCluster((ll)Draw(s.rd.d_->size() + 10, "h.plp"))); if (f && !f->EOS()) Cluster(f, how); }
    if (s.seg->GetInfo()) { ll du = L(s.seg->GetDuration()); EvHash(&du, sizeof du); }
  }
};

// C15: arbitrary bytes never harm the pull parser.
void C15() {
  Bytes doc = DrawHostile();
  FaultCount("hostile_input");
  EvHash(doc.data(), doc.size());
  if (Verbose()) Ev("%zu bytes: %s", doc.size(), Hex(doc.data(), doc.size(), 4000).c_str());
  PDoc none;
  PSession s(none, &doc, "C15");
  s.tolerant = true;
  if (Chance(1, 4, "c15.grow")) {
    s.growing = true;
    s.step_max = 1 + Magnitude(doc.size(), "c15.stepmax");
    s.rd.avail = Draw(doc.size() + 1, "c15.avail0");
    s.rd.total_known = !Chance(1, 2, "c15.live");
  }
  const int fk = (int)Draw(8, "c15.fault");
  if (fk == 1) { s.rd.fail_read = 1 + Magnitude(2000, "c15.read"); s.rd.sticky = Chance(1, 2, "c15.sticky"); }
  if (fk == 2) ArmAllocFault(1 + Magnitude(200, "c15.alloc"), true, Chance(1, 4, "c15.burst") ? 3 : 1);
  auto step = [&](const char* what, auto&& call) -> bool {
    for (int i = 0; i < 5000; ++i) {
      ll st = call();
      if (st == 0) return true;
      if (!(st > 0 || st == mkvparser::E_BUFFER_NOT_FULL)) { Ev("%s %lld", what, st); return false; }
      if (!s.Wait(what, st, true, st)) return false;
    }
    return false;
  };
  { LibScope ls; s.hdr = new mkvparser::EBMLHeader; }
  bool ok = step("EBMLHeader::Parse", [&] { return L(s.hdr->Parse(&s.rd, s.hpos)); }) &&
            step("CreateInstance", [&] { return L(mkvparser::Segment::CreateInstance(&s.rd, s.hpos, s.seg)); });
  bool opened = false;
  if (ok) {
    const bool load = Chance(1, 8, "c15.load");
    if (load) { long st = L(s.seg->Load()); opened = st == 0; }
    else opened = step("ParseHeaders", [&] { return L(s.seg->ParseHeaders()); });
    if (opened && s.seg->GetInfo() && s.seg->GetTracks()) { s.err = false; Prober p{s}; p.All(); Count("c15.opened"); MarkNontrivial(); }
  }
  if (AllocFaultFired()) FaultCount("alloc_failure");
  DisarmAllocFault();
  if (s.rd.reads > 400 * (doc.size() + 100)) Fail("C15:work", "%llu reads for a file of %zu bytes", (ull)s.rd.reads, doc.size());
  s.Destroy();
  if (LiveLibAllocs()) Fail("C15:leak", "%s", LiveLibAllocSummary().c_str());
}
SIM_SCENARIO("C15", C15);
}  // namespace
}  // namespace sim
