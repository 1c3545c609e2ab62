// mkvparser random access: cue lookup, seeking and walking in any order,
// against a model of what is loaded.
#include "psession.h"

namespace sim {
namespace {
typedef unsigned long long ull;
typedef long long ll;
#define L(expr) ([&]() { LibScope ls_; return (expr); }())

struct SeekRun {
  const PDoc& d;
  PSession s;
  size_t loaded = 0;                 // clusters loaded so far (a prefix)
  bool all_loaded = false;           // LoadCluster said there are no more
  std::vector<const mkvparser::Cluster*> obj;           // known cluster objects
  struct Held { const mkvparser::BlockEntry* e; size_t bi; };
  std::vector<Held> held;
  bool done = false;                 // a fault fired: the session ends
  bool inject = false;
  SeekRun(const PDoc& doc) : d(doc), s(doc, &doc.b, "C13"), obj(doc.clusters.size(), nullptr) {}

  bool Faulted() { return inject && (s.rd.faults || AllocFaultFired()); }
  bool Full() { return s.rd.avail >= d.b.size() && s.rd.total_known; }
  // A negative result: wait for data, or stop after an injected fault.
  bool Again(const char* what, ll st) {
    if (Faulted()) { done = true; return false; }
    return s.Wait(what, st, st == mkvparser::E_BUFFER_NOT_FULL, -1);
  }
  ll Time(size_t bi) { const PBlock& b = d.blocks[bi]; return ((ll)d.clusters[b.cluster].tc + b.rel) * (ll)d.scale; }
  ll CTime(size_t ci) { return (ll)d.clusters[ci].tc * (ll)d.scale; }
  int Type(int track) { for (auto& t : d.tracks) if (t.number == track) return t.type; return 0; }
  bool Vet(size_t bi) { return Type(d.blocks[bi].track) != 1 || d.blocks[bi].key; }
  const mkvparser::Track* Trk(int n) { return s.seg->GetTracks()->GetTrackByNumber(n); }

  void Saw(const mkvparser::Cluster* c, size_t ci, const char* how) {
    if (!c || c->EOS()) Fail("C13:cluster", "%s gives no cluster, expected cluster %zu", how, ci);
    if ((ull)c->GetPosition() != d.clusters[ci].pos) Fail("C13:cluster", "%s gives the cluster at %lld, expected cluster %zu at %llu", how, c->GetPosition(), ci, (ull)d.clusters[ci].pos);
    if (obj[ci] && obj[ci] != c) Fail("C13:identity", "%s gives a second object for cluster %zu", how, ci);
    obj[ci] = c;
    if (ci < loaded && c->GetIndex() != (long)ci) Fail("C13:index", "%s: cluster %zu has index %ld", how, ci, c->GetIndex());
    if (ci >= loaded && c->GetIndex() >= 0) Fail("C13:index", "%s: cluster %zu is not loaded but has index %ld", how, ci, c->GetIndex());
  }
  void SawBlock(const mkvparser::BlockEntry* e, size_t bi, const char* how) {
    if (!e || e->EOS()) Fail("C13:block", "%s gives no block, expected block %zu (track %d, time %lld)", how, bi, d.blocks[bi].track, Time(bi));
    const mkvparser::Block* b = e->GetBlock();
    const mkvparser::Cluster* c = e->GetCluster();
    if (!b || !c) Fail("C13:block", "%s gives an entry without block or cluster", how);
    const PBlock& w = d.blocks[bi];
    if ((ull)c->GetPosition() != d.clusters[w.cluster].pos || e->GetIndex() != w.index)
      Fail("C13:block", "%s gives block %ld of the cluster at %lld (track %lld, time %lld), expected block %d of cluster %d at %llu (track %d, time %lld)", how, e->GetIndex(), c->GetPosition(), b->GetTrackNumber(), b->GetTime(c), w.index, w.cluster, (ull)d.clusters[w.cluster].pos, w.track, Time(bi));
    Saw(c, w.cluster, how);
    if (Chance(1, 4, "s.check")) { s.CheckBlock(c, e, bi); if (s.err) { done = true; return; } }
    held.push_back({e, bi});
    Count("c13.blocks");
  }
  // The clusters the library has loaded by now, whoever asked for it.
  void SyncLoaded(size_t want, const char* how) {
    if (s.seg->GetCount() != want) Fail("C13:count", "%s: %lu clusters loaded, expected %zu", how, s.seg->GetCount(), want);
    loaded = want;
  }

  void OpLoad() {
    for (;;) {
      ll pos = -1; long len = 0;
      long st = L(s.seg->LoadCluster(pos, len));
      Ev("LoadCluster %ld", st);
      if (st == 0) {
        if (loaded >= d.clusters.size()) Fail("C13:extra-cluster", "LoadCluster reports a cluster after the last");
        SyncLoaded(loaded + 1, "LoadCluster");
        Saw(L(s.seg->GetLast()), loaded - 1, "LoadCluster");
        return;
      }
      if (st == 1) {
        if (Faulted() && loaded != d.clusters.size()) Fail("C13:fault-hidden", "LoadCluster says there are no more clusters after a read or allocation failure; %zu of %zu loaded", loaded, d.clusters.size());
        if (loaded != d.clusters.size()) Fail("C13:missing-cluster", "LoadCluster says there are no more clusters, %zu of %zu loaded", loaded, d.clusters.size());
        all_loaded = true;
        return;
      }
      if (!Again("LoadCluster", st)) return;
    }
  }
  ll DrawTime() {
    if (d.blocks.empty() || Chance(1, 5, "s.trand")) return (ll)Draw(40000, "s.t") * (ll)(d.scale / 2 + 1);
    ll t = Chance(1, 3, "s.tc") ? CTime(Draw(d.clusters.size(), "s.tci")) : Time(Draw(d.blocks.size(), "s.tbi"));
    switch (Draw(3, "s.tj")) { case 1: t += 1; break; case 2: if (t > 0) t -= 1; break; default: break; }
    return t;
  }
  void OpFindCluster() {
    ll t = DrawTime();
    const mkvparser::Cluster* c = L(s.seg->FindCluster(t));
    Ev("FindCluster %lld", t);
    if (Faulted()) { done = true; return; }      // the time of a cluster may be unreadable; there is no error result
    if (loaded == 0) { if (!c || !c->EOS()) Fail("C13:find-cluster", "FindCluster finds a cluster when none is loaded"); return; }
    size_t w = 0;
    for (size_t i = 0; i < loaded; ++i) if (CTime(i) <= t) w = i;
    Saw(c, w, "FindCluster");
  }
  void OpPreload() {
    if (d.clusters.empty()) return;
    size_t ci = Draw(d.clusters.size(), "s.pc");
    const mkvparser::Cluster* c = L(s.seg->FindOrPreloadCluster((ll)d.clusters[ci].pos));
    Ev("FindOrPreloadCluster %zu", ci);
    if (Faulted() && !c) { done = true; return; }
    Saw(c, ci, "FindOrPreloadCluster");
    if (ci >= loaded) Count("c13.preloaded");
    if (Chance(1, 2, "s.pread")) {
      const size_t before = s.blocks_seen;
      s.tolerant = inject;
      if (!s.ReadCluster(c, ci, (int)Draw(3, "s.how")) && s.err) { if (!Faulted()) Fail("C13:error", "%s reports error %lld", s.err_at.c_str(), s.err_code); done = true; }
      s.blocks_seen = before;
    }
  }
  void OpCueLoad() {
    const mkvparser::Cues* q = s.seg->GetCues();
    if (!q || s.rd.avail < d.cues_end || q->DoneParsing()) return;
    ll n = q->GetCount() < 0 ? 0 : q->GetCount();
    bool ok = L(q->LoadCuePoint());
    Ev("LoadCuePoint %d count %ld", ok, q->GetCount());
    if (Faulted()) { done = true; return; }
    if (ok != (n < (ll)d.cues.size()) || q->GetCount() != n + ok) Fail("C13:cue-load", "LoadCuePoint %d, count %ld, %zu cue points in the file", ok, q->GetCount(), d.cues.size());
  }
  void OpCueFind() {
    const mkvparser::Cues* q = s.seg->GetCues();
    if (!q || d.tracks.empty() || s.rd.avail < d.cues_end) return;
    size_t n = q->GetCount() < 0 ? 0 : (size_t)q->GetCount();
    if (n > d.cues.size()) Fail("C13:cue-load", "%zu cue points loaded, %zu in the file", n, d.cues.size());
    int trk = d.tracks[Draw(d.tracks.size(), "s.ct")].number;
    ll t = DrawTime();
    const mkvparser::CuePoint* cp = nullptr;
    const mkvparser::CuePoint::TrackPosition* tp = nullptr;
    bool ok = L(q->Find(t, Trk(trk), cp, tp));
    Ev("Cues::Find %lld track %d -> %d", t, trk, ok);
    size_t w = 0;
    for (size_t i = 0; i < n; ++i) if ((ll)(d.cues[i].time * d.scale) <= t) w = i;
    const PCuePos* p = nullptr;
    if (n) for (auto& x : d.cues[w].tp) if (x.track == trk) { p = &x; break; }
    if (ok != (p != nullptr)) Fail("C13:cue-find", "Cues::Find(%lld, track %d) %s", t, trk, ok ? "finds a position that does not exist" : "finds nothing");
    if (!ok) return;
    s.CheckCue(cp, w);
    if ((ull)tp->m_pos != p->pos || (ull)tp->m_block != p->block) Fail("C13:cue-find", "Cues::Find gives cluster %lld block %lld, in the file %llu block %llu", tp->m_pos, tp->m_block, (ull)p->pos, (ull)p->block);
    for (;;) {
      const mkvparser::BlockEntry* e = L(q->GetBlock(cp, tp));
      Ev("Cues::GetBlock -> %d", e != nullptr);
      if (!e) {
        if (Faulted()) { done = true; return; }
        const PCluster& c = d.clusters[d.blocks[p->block_idx].cluster];
        if (s.rd.avail >= c.end) Fail("C13:cue-block", "Cues::GetBlock finds nothing; the cue points at block %d", p->block_idx);
        if (!s.Wait("Cues::GetBlock", mkvparser::E_BUFFER_NOT_FULL, true, (ll)c.end)) return;
        continue;
      }
      SawBlock(e, p->block_idx, "Cues::GetBlock");
      return;
    }
  }
  // The first block of a track in file order among the loaded clusters, or -1.
  int FirstOf(int trk, bool vet) {
    for (size_t i = 0; i < d.blocks.size(); ++i)
      if ((size_t)d.blocks[i].cluster < loaded && d.blocks[i].track == trk && (!vet || Vet(i))) return (int)i;
    return -1;
  }
  int NextOf(size_t bi, bool all) {
    for (size_t i = bi + 1; i < d.blocks.size(); ++i)
      if ((all || (size_t)d.blocks[i].cluster < loaded) && d.blocks[i].track == d.blocks[bi].track) return (int)i;
    return -1;
  }
  // Nothing found in the loaded part: right when it is the end, or "load more".
  void NotFound(const char* what, long st, const mkvparser::BlockEntry* e) {
    if (st == mkvparser::E_BUFFER_NOT_FULL) {
      if (all_loaded && s.seg->DoneParsing()) Fail("C13:stuck", "%s asks for more clusters although all are loaded", what);
      return;
    }
    if (Faulted() && st < 0) { done = true; return; }
    if (st < 0 || !e || !e->EOS()) Fail("C13:walk", "%s returns %ld and %s; there is no such block", what, st, !e ? "nothing" : e->EOS() ? "end" : "a block");
    if (loaded < d.clusters.size()) Fail("C13:walk", "%s reports the end of the track with %zu of %zu clusters loaded", what, loaded, d.clusters.size());
  }
  void OpFirst() {
    int trk = d.tracks[Draw(d.tracks.size(), "s.ft")].number;
    for (;;) {
      const mkvparser::BlockEntry* e = nullptr;
      long st = L(Trk(trk)->GetFirst(e));
      Ev("Track::GetFirst track %d -> %ld", trk, st);
      int w = FirstOf(trk, true);
      if (w < 0 && !(st == mkvparser::E_BUFFER_NOT_FULL && !Full() && loaded)) { NotFound("Track::GetFirst", st, e); return; }
      if (st == 0) { SawBlock(e, w, "Track::GetFirst"); return; }
      if (st > 0) Fail("C13:walk", "Track::GetFirst returns %ld, expected block %d", st, w);
      if (w < 0) { if (!s.Wait("Track::GetFirst", st, true, -1)) return; if (Full()) continue; return; }
      if (!Again("Track::GetFirst", st)) return;
    }
  }
  void OpNext() {
    if (held.empty()) return;
    Held h = held[Chance(1, 2, "s.hl") ? held.size() - 1 : Draw(held.size(), "s.hi")];
    int trk = d.blocks[h.bi].track;
    for (;;) {
      bool pre = (size_t)d.blocks[h.bi].cluster >= loaded;
      if (pre && !Full()) return;          // walking on from a cluster that is not loaded needs the rest of the file
      if (pre && inject) return;           // Segment::GetNext() has no error result
      const mkvparser::BlockEntry* e = nullptr;
      long st = L(Trk(trk)->GetNext(h.e, e));
      Ev("Track::GetNext block %zu -> %ld", h.bi, st);
      int w = NextOf(h.bi, pre);
      if (st == 0) { if (w < 0) Fail("C13:walk", "Track::GetNext finds a block after the last of the track"); SawBlock(e, w, "Track::GetNext"); return; }
      if (w < 0) {
        if (pre) { if (st != 1 || !e || !e->EOS()) Fail("C13:walk", "Track::GetNext returns %ld at the end of the track", st); return; }
        if (st == mkvparser::E_BUFFER_NOT_FULL && !Full()) return;
        NotFound("Track::GetNext", st, e);
        return;
      }
      if (st > 0) Fail("C13:walk", "Track::GetNext returns %ld, expected block %d", st, w);
      if (!Again("Track::GetNext", st)) return;
    }
  }
  void OpSeek() {
    int trk = d.tracks[Draw(d.tracks.size(), "s.st")].number;
    ll t = DrawTime();
    for (;;) {
      const mkvparser::BlockEntry* e = nullptr;
      long st = L(Trk(trk)->Seek(t, e));
      Ev("Track::Seek track %d to %lld -> %ld", trk, t, st);
      int first = FirstOf(trk, true);
      if (st < 0) {
        if (Faulted()) { done = true; return; }
        if (first < 0 && st == mkvparser::E_BUFFER_NOT_FULL && !all_loaded) return;    // load more clusters
        if (first < 0 && st == mkvparser::E_BUFFER_NOT_FULL && !s.seg->DoneParsing()) return;
        if (!Again("Track::Seek", st)) return;
        continue;
      }
      if (st > 0) Fail("C13:seek", "Track::Seek returns %ld", st);
      if (first < 0) {
        if (!e || !e->EOS()) Fail("C13:seek", "Track::Seek(%lld) on track %d finds a block where there is none", t, trk);
        if (loaded < d.clusters.size()) Fail("C13:seek", "Track::Seek reports the end with %zu of %zu clusters loaded", loaded, d.clusters.size());
        return;
      }
      int w = first;
      if (t > Time(first)) {
        if (Type(trk) == 1) {       // the last key frame at or before the time
          for (size_t i = 0; i < d.blocks.size(); ++i)
            if ((size_t)d.blocks[i].cluster < loaded && d.blocks[i].track == trk && d.blocks[i].key && Time(i) <= t) w = (int)i;
        } else {                    // the first block of the track in the last cluster that starts at or before the time and has one
          for (size_t c = 0; c < loaded; ++c) {
            if (CTime(c) > t) break;
            for (int i : d.clusters[c].blocks) if (d.blocks[i].track == trk) { w = i; break; }
          }
        }
      }
      SawBlock(e, w, "Track::Seek");
      return;
    }
  }
  void OpNextCluster() {
    std::vector<size_t> have;
    for (size_t i = 0; i < obj.size(); ++i) if (obj[i]) have.push_back(i);
    if (have.empty()) return;
    size_t ci = have[Draw(have.size(), "s.nci")];
    if (Chance(1, 3, "s.ngn")) {
      if (ci >= loaded && (!Full() || inject)) return;
      const mkvparser::Cluster* c = L(s.seg->GetNext(obj[ci]));
      Ev("Segment::GetNext %zu (%zu loaded)", ci, loaded);
      if (ci < loaded) {
        if (ci + 1 == loaded) { if (!c || !c->EOS()) Fail("C13:next", "Segment::GetNext after the last loaded cluster gives a cluster"); return; }
        Saw(c, ci + 1, "Segment::GetNext");
      } else {
        if (ci + 1 == d.clusters.size()) { if (c) Fail("C13:next", "Segment::GetNext after the last cluster gives a cluster"); return; }
        Saw(c, ci + 1, "Segment::GetNext");
      }
      return;
    }
    for (;;) {
      ll pos = -1; long len = 0;
      const mkvparser::Cluster* c = nullptr;
      const bool pre = ci >= loaded;
      long st = L(s.seg->ParseNext(obj[ci], c, pos, len));
      Ev("Segment::ParseNext %zu (%s) -> %ld", ci, pre ? "preloaded" : "loaded", st);
      if (st == 0) {
        if (ci + 1 >= d.clusters.size()) Fail("C13:next", "Segment::ParseNext finds a cluster after the last (at %lld)", c ? c->GetPosition() : -1);
        if (!pre && ci + 1 == loaded) SyncLoaded(loaded + 1, "ParseNext");
        Saw(c, ci + 1, "Segment::ParseNext");
        return;
      }
      if (st == 1) {
        if (ci + 1 != d.clusters.size()) Fail(Faulted() ? "C13:fault-hidden" : "C13:next", "Segment::ParseNext says there is no cluster after number %zu of %zu", ci, d.clusters.size());
        return;
      }
      if (st > 1) Fail("C13:status", "Segment::ParseNext returns %ld", st);
      if (!Again("Segment::ParseNext", st)) return;
    }
  }
  void OpEntry() {
    std::vector<size_t> have;
    for (size_t i = 0; i < obj.size(); ++i) if (obj[i]) have.push_back(i);
    if (have.empty()) return;
    size_t ci = have[Draw(have.size(), "s.eci")];
    const PCluster& pc = d.clusters[ci];
    if (Chance(1, 2, "s.elast")) {
      for (;;) {
        const mkvparser::BlockEntry* e = nullptr;
        long st = L(obj[ci]->GetLast(e));
        Ev("Cluster::GetLast %zu -> %ld", ci, st);
        if (st < 0) { if (!Again("Cluster::GetLast", st)) return; continue; }
        SawBlock(e, pc.blocks.back(), "Cluster::GetLast");
        return;
      }
    }
    int trk = d.tracks[Draw(d.tracks.size(), "s.et")].number;
    ll t = Chance(1, 3, "s.eneg") ? -1 : DrawTime();
    for (;;) {
      const mkvparser::BlockEntry* e = L(obj[ci]->GetEntry(Trk(trk), t));
      Ev("Cluster::GetEntry %zu track %d time %lld", ci, trk, t);
      int w = -1;
      for (int i : pc.blocks) {
        if (d.blocks[i].track != trk) continue;
        if (t >= 0 && Time(i) > t) break;
        if (Vet(i)) { w = i; if (t < 0) break; }
      }
      if (!e) {
        if (Faulted()) { done = true; return; }
        if (s.rd.avail >= pc.end) Fail("C13:entry", "Cluster::GetEntry(track %d, %lld) fails on a complete cluster", trk, t);
        if (!s.Wait("Cluster::GetEntry", mkvparser::E_BUFFER_NOT_FULL, true, -1)) return;
        continue;
      }
      if (w < 0) { if (!e->EOS()) Fail("C13:entry", "Cluster::GetEntry(track %d, %lld) finds a block where there is none", trk, t); return; }
      SawBlock(e, w, "Cluster::GetEntry(track, time)");
      return;
    }
  }
};

void C13() {
  PDocOpts o;
  o.meta = Chance(1, 8, "c13.meta");
  o.tidy_times = true;
  o.unknown_sizes = false;
  o.max_clusters = 10;
  if (Chance(1, 6, "c13.many")) { o.max_clusters = 40; o.max_blocks = 3; }
  if (Chance(1, 400, "c13.huge")) o.huge = (int)Range(1, 2, "c13.hugek");
  PDoc d = DrawPDoc(o);
  EvHash(d.b.data(), d.b.size());
  if (Verbose()) Ev("%s", Hex(d.b.data(), d.b.size(), 4000).c_str());
  if (Verbose()) for (auto& c : d.clusters) { std::string l = Fmt("cluster at %llu time %llu:", (ull)c.pos, (ull)c.tc); for (int i : c.blocks) l += Fmt(" %d:t%d@%d%s", i, d.blocks[i].track, d.blocks[i].rel, d.blocks[i].key ? "k" : ""); Ev("%s", l.c_str()); }
  SeekRun r(d);
  const int env = (int)Draw(4, "c13.env");      // 0,1 complete file, 2 growing, 3 faults
  if (env == 2) {
    r.s.growing = true;
    r.s.step_max = 1 + Magnitude(d.b.size(), "c13.stepmax");
    if (o.huge) r.s.step_max += d.b.size() / 100;
    r.s.rd.avail = Draw(d.b.size() + 1, "c13.avail0");
    r.s.rd.total_known = !Chance(1, 3, "c13.live");
  }
  if (!r.s.Open()) Fail("C13:open", "the document does not open");
  if (env == 3) {
    r.inject = true;
    r.s.tolerant = true;
    if (Chance(1, 3, "c13.alloc")) ArmAllocFault(1 + Magnitude(60, "c13.allock"), true, Chance(1, 4, "c13.burst") ? 3 : 1);
    else { r.s.rd.fail_read = r.s.rd.reads + 1 + Magnitude(400, "c13.read"); r.s.rd.sticky = Chance(1, 3, "c13.sticky"); }
  }
  if (Chance(1, 2, "c13.preall")) { uint64_t n = Draw(d.clusters.size() + 2, "c13.pren"); for (uint64_t i = 0; i < n && !r.done; ++i) r.OpLoad(); }
  if (Chance(2, 3, "c13.cueall")) for (size_t i = 0; i <= d.cues.size() && !r.done; ++i) r.OpCueLoad();
  const uint64_t nops = Range(1, 60, "c13.nops");
  for (uint64_t i = 0; i < nops && !r.done; ++i) {
    SimSteps(1);
    switch (Draw(10, "c13.op")) {
      case 0: r.OpLoad(); break;
      case 1: r.OpFindCluster(); break;
      case 2: r.OpPreload(); break;
      case 3: r.OpCueLoad(); break;
      case 4: r.OpCueFind(); break;
      case 5: r.OpFirst(); break;
      case 6: r.OpNext(); break;
      case 7: r.OpSeek(); break;
      case 8: r.OpNextCluster(); break;
      case 9: r.OpEntry(); break;
    }
    if (r.s.err) r.done = true;
  }
  if (AllocFaultFired()) FaultCount("alloc_failure");
  DisarmAllocFault();
  if (!r.done) {      // everything known so far is still right
    for (auto& h : r.held) {
      const mkvparser::BlockEntry* e = h.e;
      if (e->GetIndex() != d.blocks[h.bi].index || (ull)e->GetCluster()->GetPosition() != d.clusters[d.blocks[h.bi].cluster].pos || e->GetBlock()->GetTrackNumber() != d.blocks[h.bi].track)
        Fail("C13:held", "block %zu changed while the file was walked", h.bi);
    }
    for (size_t i = 0; i < r.obj.size(); ++i) if (r.obj[i]) r.Saw(r.obj[i], i, "at the end");
  }
  if (d.blocks.size() > 4 && r.held.size() > 3) MarkNontrivial();
  r.s.Destroy();
  if (LiveLibAllocs()) Fail("C13:leak", "%s", LiveLibAllocSummary().c_str());
}
SIM_SCENARIO("C13", C13);

}  // namespace
}  // namespace sim
