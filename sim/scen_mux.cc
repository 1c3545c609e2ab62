// Scenarios for the muxer (mkvmuxer).
#include <algorithm>

#include "mkvmuxer/mkvwriter.h"
#include "mux.h"
#include "simfs.h"

namespace sim {
namespace {

void CheckLeak(const char* what) {
  if (LiveLibAllocs() != 0) Fail(std::string(what) + ":leak", "memory not released: %s", LiveLibAllocSummary().c_str());
}

Bytes ChunkConcat(const std::string& base) {
  Bytes out = g_fs.Content(base + ".hdr");
  for (int i = 0;; ++i) {
    std::string n = base + Fmt("_%06d.chk", i);
    if (!g_fs.Exists(n)) break;
    Bytes c = g_fs.Content(n);
    out.insert(out.end(), c.begin(), c.end());
  }
  for (auto& f : g_fs.files_)
    if (f.first.compare(0, base.size(), base) == 0 && f.first.size() > 5 && f.first.substr(f.first.size() - 5) == ".cues") {
      Bytes c = g_fs.Content(f.first);
      out.insert(out.end(), c.begin(), c.end());
    }
  return out;
}

bool AnyFrame(const MuxRun& r) { return !r.accepted.empty(); }

// ---- C07: what was accepted is what the file holds ---------------------------
void C07() {
  g_fs.Reset();
  {
    MuxOpts o;
    o.allow_chunking = true;
    MuxPlan p = DrawMuxPlan(o);
    SimWriter w(p.seekable);
    MuxRun r(&p, &w);
    r.chunk_base = "/sim/chunk";
    bool ok = r.RunAll(true, "roundtrip");
    if (ok && r.all_ok && AnyFrame(r)) {
      r.Destroy();
      const Bytes b = p.chunking ? ChunkConcat(r.chunk_base) : w.data;
      EvHash(b.data(), b.size());
      FileView v = MustView(b, "roundtrip");
      JudgeFrames(r, b, v, "roundtrip");
      JudgeMeta(r, b, v, "roundtrip");
      JudgeParserReadback(r, b, v, "roundtrip");
      Count("frames", r.accepted.size());
      Count("clusters", v.clusters.size());
      if (r.accepted.size() > 3) MarkNontrivial();
    }
  }
  CheckLeak("roundtrip");
}
SIM_SCENARIO("C07", C07);

// ---- C08: structure of the output --------------------------------------------
void C08() {
  g_fs.Reset();
  {
    MuxOpts o;
    o.allow_chunking = true;
    MuxPlan p = DrawMuxPlan(o);
    SimWriter w(p.seekable);
    MuxRun r(&p, &w);
    r.chunk_base = "/sim/chunk";
    bool ok = r.RunAll(true, "structure");
    if (ok && r.all_ok && AnyFrame(r)) {
      Bytes moved;
      bool did_move = false;
      if (p.cues_first && p.output_cues) {
        SimWriter w2(true);
        SimReader rd(&w.data);
        bool mv;
        { LibScope ls; mv = r.seg->CopyAndMoveCuesBeforeClusters(&rd, &w2); }
        if (!mv) Fail("structure:move-refused", "moving the cues failed without a fault");
        moved = w2.data;
        did_move = true;
        Count("cues_moved");
      }
      r.Destroy();
      const Bytes b = p.chunking ? ChunkConcat(r.chunk_base) : w.data;
      EvHash(b.data(), b.size());
      FileView v = MustView(b, "structure");
      JudgeStructure(r, b, v, "structure", false);
      if (did_move) {
        EvHash(moved.data(), moved.size());
        FileView v2 = MustView(moved, "structure:moved");
        JudgeStructure(r, moved, v2, "structure:moved", true);
        JudgeFrames(r, moved, v2, "structure:moved");
        JudgeMeta(r, moved, v2, "structure:moved");
      }
      if (v.clusters.size() > 1) MarkNontrivial();
      Count("clusters", v.clusters.size());
      if (p.chunking) Count("chunked_files");
    }
  }
  CheckLeak("structure");
}
SIM_SCENARIO("C08", C08);

// ---- C09: faults are reported ------------------------------------------------
void C09() {
  g_fs.Reset();
  {
    MuxOpts o;
    o.max_ops = 30;
    o.allow_chunking = true;
    o.allow_bad = false;
    MuxPlan p = DrawMuxPlan(o);
    // Fault-free pass to size the fault plan.
    uint64_t nw, ns, na;
    {
      SimWriter w(p.seekable);
      MuxRun r(&p, &w);
      r.chunk_base = "/sim/dry";
      uint64_t a0 = LibAllocCount(true);
      r.RunAll(false, "faults");
      nw = p.chunking ? g_fs.writes : w.writes;
      ns = p.chunking ? g_fs.seeks : w.seeks;
      na = LibAllocCount(true) - a0;
    }
    CheckLeak("faults:dry");
    g_fs.Reset();
    SimWriter w(p.seekable);
    MuxRun r(&p, &w);
    r.chunk_base = "/sim/chunk";
    const bool later = p.cues_first && Chance(1, 2, "f.later");       // only the move of the cues is hit
    uint64_t kind = later ? 99 : Draw(p.chunking ? 6 : 5, "f.kind");
    bool sticky = Chance(1, 2, "f.sticky");
    bool alloc = false;
    FsPlan fp;
    if (p.chunking) {
      fp.sticky = sticky;
      switch (kind) {
        case 0: fp.fail_write = 1 + Draw(nw + 1, "f.k"); break;
        case 1: fp.capacity = Magnitude(30000, "f.cap"); fp.torn = true; break;
        case 2: fp.fail_open = 1 + Draw(8, "f.k"); break;
        case 3: if (ns) fp.fail_seek = 1 + Draw(ns, "f.k"); break;
        case 4: alloc = true; break;
        case 5: fp.fail_close = 1 + Draw(6, "f.k"); fp.lossy_close = true; break;
      }
      g_fs.SetPlan(fp);
    } else {
      w.f.sticky = sticky;
      w.f.code = -(int32_t)Range(1, 3, "f.code"); if (Chance(1, 3, "f.pos")) w.f.code = -w.f.code;
      switch (kind) {
        case 0: w.f.fail_write = 1 + Draw(nw, "f.k"); w.f.torn = Chance(1, 2, "f.torn"); break;
        case 1: w.f.capacity = Draw(w.data.size() + 20000, "f.cap"); break;
        case 2: if (nw > 40) w.f.fail_write = nw - Draw(40, "f.k"); break;   // around finalisation
        case 3: if (ns) w.f.fail_seek = 1 + Draw(ns, "f.k"); break;
        case 4: alloc = true; break;
      }
    }
    if (alloc && na) ArmAllocFault(1 + Draw(na, "f.k"), true, sticky ? 3 : 1);
    bool ok = r.RunAll(false, "faults");
    bool fired = AllocFaultFired();
    DisarmAllocFault();
    if (fired) FaultCount("alloc_failure");
    uint64_t injected = w.faults + (p.chunking ? g_fs.Failures() : 0) + (fired ? 1 : 0);
    bool moved = false;
    Bytes moved_bytes;
    if (ok && r.all_ok && p.cues_first && p.output_cues && AnyFrame(r)) {
      SimWriter w2(true);
      SimReader rd(&w.data);
      uint64_t k2 = Draw(4, "f.move");
      if (k2 == 0) w2.f.fail_write = 1 + Draw(later ? (Chance(1, 2, "f.kw") ? 400 : w.data.size() / 2048 + 40) : 80, "f.k");
      if (k2 == 1) w2.f.fail_seek = 1 + Draw(6, "f.k");
      if (k2 == 2) rd.fail_read = 1 + Draw(6, "f.k");
      if (k2 == 3) w2.f.capacity = Draw(w.data.size() + 1, "f.cap");
      w2.f.sticky = sticky;
      bool mv;
      { LibScope ls; mv = r.seg->CopyAndMoveCuesBeforeClusters(&rd, &w2); }
      injected += w2.faults + rd.faults;
      if (mv) { moved = true; moved_bytes = w2.data; }
    }
    bool success = ok && r.all_ok && AnyFrame(r);
    r.Destroy();
    if (success) {
      const Bytes b = p.chunking ? ChunkConcat(r.chunk_base) : w.data;
      FileView v = MustView(b, "faults:unreported");
      JudgeFrames(r, b, v, "faults:unreported");
      JudgeStructure(r, b, v, "faults:unreported", false);
      if (!fired) JudgeMeta(r, b, v, "faults:unreported");
      if (moved) {
        FileView v2 = MustView(moved_bytes, "faults:unreported-move");
        JudgeFrames(r, moved_bytes, v2, "faults:unreported-move");
        JudgeStructure(r, moved_bytes, v2, "faults:unreported-move", true);
      }
    } else if (!injected && !r.all_ok && !p.wide && AnyFrame(r)) {
      Fail("faults:spurious", "%s failed although nothing was injected", r.first_fail.c_str());
    }
    if (injected) { MarkNontrivial(); Count(success ? "faults_survived" : "faults_reported"); }
    if (g_fs.open_handles != 0) Fail("faults:handle-leak", "%d files left open", g_fs.open_handles);
  }
  CheckLeak("faults");
}
SIM_SCENARIO("C09", C09);

// ---- C10: crash before finalisation --------------------------------------------
void C10() {
  {
    MuxOpts o;
    MuxPlan p = DrawMuxPlan(o);
    p.finalize = false;
    SimWriter w(p.seekable);
    w.log = true;
    MuxRun r(&p, &w);
    if (!r.Setup()) Fail("survivor:refused-setup", "%s failed without a fault", r.first_fail.c_str());
    struct Mark { uint64_t bytes; size_t accepted; bool settled; };
    std::vector<Mark> marks;
    bool clean = true;
    for (auto& op : p.ops) {
      bool ok = r.Op(op);
      if (op.kind == kOpForce) continue;
      if (!ok && op.kind == kOpFrame) { clean = false; break; }
      // A frame of a file without held-back audio, or a non-audio frame, is
      // written (with everything accepted before it) when the call returns.
      bool held = p.accurate || (p.has_video && p.tracks[op.track].kind == 1);
      if (ok) marks.push_back({w.logged.size(), r.accepted.size(), !held && op.kind == kOpFrame});
    }
    if (clean) {
      uint64_t total = w.logged.size();
      int tries = (int)Range(1, 6, "crash.n");
      for (int t = 0; t < tries; ++t) {
        uint64_t n;
        if (!marks.empty() && Chance(1, 2, "crash.edge")) {
          n = marks[Draw(marks.size(), "crash.mark")].bytes;
          uint64_t d = Draw(24, "crash.d");
          n = d < 12 ? std::min<uint64_t>(total, n + d) : n - std::min<uint64_t>(n, d - 11);
        } else {
          n = Draw(total + 1, "crash.at");
        }
        FaultCount("crash");
        Bytes b = w.Replay(n);
        Ev("crash after %llu of %llu bytes", (unsigned long long)n, (unsigned long long)total);
        FileView v;
        std::string err;
        if (!ViewFile(b, true, &v, &err)) Fail("survivor:malformed", "after a crash at byte %llu the file is not a readable prefix: %s", (unsigned long long)n, err.c_str());
        std::map<uint64_t, std::vector<const OpPlan*>> want;
        for (size_t i = 0; i < r.accepted.size(); ++i) want[r.accepted_track[i]].push_back(r.accepted[i]);
        std::map<uint64_t, size_t> got;
        for (auto& bl : v.blocks) {
          size_t i = got[bl.track]++;
          auto& wl = want[bl.track];
          if (i >= wl.size()) Fail("survivor:extra-frame", "after a crash the file holds a frame nobody added");
          if (bl.data != OpData(*wl[i]) || bl.tc != (int64_t)(wl[i]->ts / p.scale) || bl.key != wl[i]->key)
            Fail("survivor:wrong-frame", "after a crash at byte %llu frame %zu of track %llu differs from what was added", (unsigned long long)n, i, (unsigned long long)bl.track);
        }
        size_t durable = 0;
        for (auto& m : marks) if (m.bytes <= n && m.settled) durable = std::max(durable, m.accepted);
        std::map<uint64_t, size_t> need;
        for (size_t i = 0; i < durable; ++i) need[r.accepted_track[i]]++;
        for (auto& x : need)
          if (got[x.first] < x.second)
            Fail("survivor:lost-frame", "%zu frames of track %llu had been accepted and settled before the crash, %zu survive", x.second, (unsigned long long)x.first, got[x.first]);
        if (durable > 2) MarkNontrivial();
        Count("frames_recovered", v.blocks.size());
      }
    }
    r.Destroy();
  }
  CheckLeak("crash");
}
SIM_SCENARIO("C10", C10);

}  // namespace
}  // namespace sim
