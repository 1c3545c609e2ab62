// mkvparser (pull parser) scenarios.
#include "psession.h"

namespace sim {
namespace {
typedef unsigned long long ull;

// C11: a file that is still arriving reads like the complete file.
void C11() {
  PDocOpts o;
  if (Chance(1, 6, "c11.many")) { o.max_clusters = 24; o.max_blocks = 4; }
  if (Chance(1, 300, "c11.huge")) o.huge = (int)Range(1, 2, "c11.hugek");
  PDoc d = DrawPDoc(o);
  Ev("doc %zu bytes, %zu clusters, %zu blocks", d.b.size(), d.clusters.size(), d.blocks.size());
  EvHash(d.b.data(), d.b.size());
  if (Verbose()) Ev("%s", Hex(d.b.data(), d.b.size(), 4000).c_str());
  PSession s(d, &d.b, "C11");
  s.growing = true;
  s.step_max = 1 + Magnitude(d.b.size(), "c11.stepmax");
  if (o.huge) s.step_max += d.b.size() / 100;
  s.rd.avail = Chance(1, 4, "c11.some") ? Draw(d.b.size() + 1, "c11.avail0") : 0;
  s.rd.total_known = !Chance(1, 2, "c11.live");
  if (s.Open()) {
    s.JudgeMeta(false);
    s.ReadAll((int)Draw(3, "c11.style"));
    // the rest of the file arrives
    s.rd.avail = d.b.size(); s.rd.total_known = true;
    if (d.has_cues && !s.seg->GetCues()) {
      long long pos; long len;
      for (;;) { LibScope ls; if (s.seg->LoadCluster(pos, len) != 0) break; }
    }
    s.LoadCues();
  }
  if (s.blocks_seen != d.blocks.size()) Fail("C11:missing-block", "%zu of %zu blocks reported", s.blocks_seen, d.blocks.size());
  if (s.need_more > 3 && d.blocks.size() > 2) MarkNontrivial();
  Count("c11.blocks", s.blocks_seen);
  Count("c11.short_reads", s.rd.short_reads);
  s.Destroy();
  if (LiveLibAllocs()) Fail("C11:leak", "%s", LiveLibAllocSummary().c_str());
}
SIM_SCENARIO("C11", C11);

// C12: a failing read, a failed allocation or a truncated file surfaces as an
// error, or does no harm; what was reported before is right.
void RunC12(const PDoc& d, PSession* s, int style, bool* complete) {
  *complete = false;
  if (!s->Open()) return;
  bool open_fault = s->rd.faults != 0 || AllocFaultFired() || s->truncated;
  s->JudgeMeta(open_fault);
  s->ReadAll(style);
  if (s->err) return;
  *complete = true;
  if (s->seg->GetCues()) s->LoadCues();
}
void C12() {
  PDocOpts o;
  if (Chance(1, 400, "c12.huge")) o.huge = (int)Range(1, 2, "c12.hugek");
  PDoc d = DrawPDoc(o);
  EvHash(d.b.data(), d.b.size());
  if (Verbose()) Ev("%s", Hex(d.b.data(), d.b.size(), 4000).c_str());
  const int style = (int)Draw(3, "c12.style");
  const int kind = (int)Draw(4, "c12.kind");       // 0,1 read error 2 allocation 3 truncation
  uint64_t reads, allocs, base = LibAllocCount(true);
  {
    PSession s(d, &d.b, "C12:clean");
    bool ok;
    RunC12(d, &s, style, &ok);
    reads = s.rd.reads;
  }
  allocs = LibAllocCount(true) - base;
  Bytes cut;
  const Bytes* bytes = &d.b;
  if (kind == 3) {
    cut.assign(d.b.begin(), d.b.begin() + Draw(d.b.size(), "c12.cut"));
    bytes = &cut;
    FaultCount("truncated_file");
  }
  PSession s(d, bytes, "C12");
  s.tolerant = true;
  s.truncated = kind == 3;
  if (kind <= 1) { s.rd.fail_read = 1 + Draw(reads ? reads : 1, "c12.read"); s.rd.sticky = Chance(1, 3, "c12.sticky"); }
  if (kind == 2) ArmAllocFault(1 + Draw(allocs ? allocs : 1, "c12.alloc"), true, Chance(1, 4, "c12.burst") ? 3 : 1);
  bool complete;
  // Truncation: a whole cluster may disappear with the cut; blocks that are
  // reported must still be right, so the counting checks get their own key.
  RunC12(d, &s, style, &complete);
  bool fired = s.rd.faults || AllocFaultFired();
  if (AllocFaultFired()) FaultCount("alloc_failure");
  DisarmAllocFault();
  if (kind != 3 && !fired && !complete) Fail("C12:error-without-fault", "%s reported error %lld although nothing failed", s.err_at.c_str(), s.err_code);
  if (fired && s.err) Count("c12.reported");
  if (fired && !s.err) Count("c12.harmless");
  Ev("kind %d fired %d err %d %s", kind, fired, s.err, s.err_at.c_str());
  if ((fired || kind == 3) && d.blocks.size() > 1) MarkNontrivial();
  s.Destroy();
  if (LiveLibAllocs()) Fail("C12:leak", "%s", LiveLibAllocSummary().c_str());
}
SIM_SCENARIO("C12", C12);

}  // namespace
}  // namespace sim
