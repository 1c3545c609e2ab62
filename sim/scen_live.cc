// Live pipeline: a real muxer produces a stream, a simulated network carries it
// to real parsers that consume it while it is still being written.
#include <algorithm>

#include "simfs.h"
#include "tails.h"

namespace sim {
namespace {
typedef long long ll;
typedef unsigned long long ull;

void CheckLeak(const char* what) {
  if (LiveLibAllocs() != 0) Fail(std::string(what) + ":leak", "memory not released: %s", LiveLibAllocSummary().c_str());
}

// What a server can hand out at this moment.
struct Origin {
  const MuxPlan* p; SimWriter* w; std::string base;
  Bytes pub;                        // header, then everything published
  std::vector<uint64_t> clusters;   // offsets in pub where a cluster starts
  int chunks = 0; bool hdr = false;
  void Update(bool final_) {
    if (!p->chunking) {
      if (pub.size() < w->data.size()) pub.insert(pub.end(), w->data.begin() + (ll)pub.size(), w->data.end());
      clusters.clear();
      for (auto& n : w->notified) if (n.first == 0x1F43B675 && n.second < pub.size()) clusters.push_back(n.second);
      return;
    }
    auto name = [&](int i) { return base + Fmt("_%06d.chk", i); };
    // A chunk is published when its successor exists (or at the end).
    if (!hdr) {
      if (!(final_ || g_fs.Exists(name(1)))) return;
      pub = g_fs.Content(base + ".hdr");
      hdr = true;
    }
    while (g_fs.Exists(name(chunks)) && (final_ || g_fs.Exists(name(chunks + 1)))) {
      Bytes c = g_fs.Content(name(chunks));
      ++chunks;
      if (c.empty()) continue;
      clusters.push_back(pub.size());
      pub.insert(pub.end(), c.begin(), c.end());
    }
  }
};

struct Consumer {
  std::unique_ptr<Tail> t;
  uint64_t prefix = 0;   // bytes of pub[0..) sent first
  uint64_t from = 0;     // then pub[from..)
  size_t first_cluster = 0;
  bool no_header = false, lost = false;
  uint64_t sent = 0;
  std::vector<std::pair<uint64_t, uint64_t>> hist;   // (bytes arrived, frames seen)
  uint64_t Total(uint64_t pub) const { return prefix + (pub > from ? pub - from : 0); }
  void Send(const Bytes& pub, uint64_t n) {
    uint64_t end = std::min(Total(pub.size()), sent + n);
    while (sent < end) {
      if (sent < prefix) {
        uint64_t k = std::min(end, prefix) - sent;
        t->view.insert(t->view.end(), pub.begin() + (ll)sent, pub.begin() + (ll)(sent + k));
        sent += k;
      } else {
        uint64_t o = from + (sent - prefix), k = end - sent;
        t->view.insert(t->view.end(), pub.begin() + (ll)o, pub.begin() + (ll)(o + k));
        sent += k;
      }
    }
  }
};

void C20() {
  const std::string K = "live";
  g_fs.Reset();
  {
    MuxOpts o;
    o.max_ops = 40; o.allow_bad = false; o.allow_wide = false; o.allow_disorder = false; o.allow_live = false; o.allow_nonseek = false;
    MuxPlan p = DrawMuxPlan(o);
    p.chunking = Chance(1, 4, "l.chunk");
    p.live = p.chunking || !Chance(1, 4, "l.file");
    p.seekable = false;
    p.cues_first = false;
    SimWriter w(false);
    MuxRun r(&p, &w);
    r.chunk_base = "/sim/live";
    if (!r.Setup()) Fail(K + ":refused-setup", "%s failed without a fault", r.first_fail.c_str());
    Origin og{&p, &w, r.chunk_base, {}, {}, 0, false};
    std::vector<Consumer> cs;
    const int want = (int)Range(1, 3, "l.consumers");
    const bool crash = Chance(1, 4, "l.crash");
    struct Lat { uint64_t bytes, must; };
    std::vector<Lat> lat;
    uint64_t held = 0, dropped_links = 0;
    size_t next = 0;
    bool ended = false, finalized = false;
    const size_t stop_at = crash ? Draw(p.ops.size() + 1, "l.stop") : p.ops.size();
    auto join = [&](bool start) {
      Consumer c;
      const uint64_t kind = Draw(3, "l.kind");
      size_t ci = 0;
      if (!start && !og.clusters.empty()) ci = og.clusters.size() - 1 - (size_t)std::min<uint64_t>(og.clusters.size() - 1, Magnitude(8, "l.back"));
      if (og.clusters.empty() || ci == 0) { c.prefix = 0; c.from = 0; c.first_cluster = 0; }
      else {
        c.first_cluster = ci;
        c.from = og.clusters[ci];
        c.no_header = kind == 0 && Chance(1, 2, "l.nohdr");
        c.prefix = c.no_header ? 0 : og.clusters[0];
        Count("late_joins");
      }
      c.t = kind == 0 ? MakeWTail(c.no_header) : MakeMTail(kind == 1 ? 0 : 1);
      if (Chance(1, 3, "l.smallread")) c.t->max_read = Range(1, 16, "l.readmax");
      Ev("consumer %zu: %s%s joins at cluster %zu", cs.size(), c.t->Name(), c.no_header ? " (no header)" : "", c.first_cluster);
      cs.push_back(std::move(c));
    };
    auto step = [&](Consumer& c) {
      c.t->Step();
      if (c.t->seen.size() > 0 && (c.hist.empty() || c.hist.back().second != c.t->seen.size())) Ev("%s saw %zu frames at byte %llu", c.t->Name(), c.t->seen.size(), (ull)c.sent);
      c.hist.push_back({c.sent, c.t->seen.size()});
    };
    join(true);
    uint64_t guard = 0;
    while (!ended) {
      if (++guard > 20000) { ended = true; }
      switch (Draw(8, "l.ev")) {
        default: {     // the producer hands in a frame
          if (next >= stop_at) {
            ended = true;
            if (!crash) {
              if (r.accepted.empty()) break;
              if (!r.Finalize()) Fail(K + ":refused", "Finalize failed without a fault");
              finalized = true;
            } else {
              FaultCount("producer_crash");
              Ev("producer dies");
            }
            break;
          }
          const OpPlan& op = p.ops[next++];
          bool ok = r.Op(op);
          if (op.kind == kOpForce) break;
          if (!ok) Fail(K + ":refused", "frame refused: track %llu time %llu", (ull)r.numbers[op.track], (ull)op.ts);
          if (p.has_video && p.tracks[op.track].kind == 1) ++held; else held = 0;
          if (!p.accurate && !p.chunking) lat.push_back({w.data.size(), r.accepted.size() - held});
          og.Update(false);
          break;
        }
        case 4: case 5: {    // the network delivers
          Consumer& c = cs[Draw(cs.size(), "l.who")];
          if (c.lost || c.sent >= c.Total(og.pub.size())) break;
          uint64_t n = Chance(1, 3, "l.burst") ? Magnitude(100000, "l.n") + 1 : Range(1, 600, "l.n");
          c.Send(og.pub, n);
          if (c.sent < c.Total(og.pub.size())) FaultCount("partial_delivery");
          step(c);
          break;
        }
        case 6: {            // a consumer polls without news
          Consumer& c = cs[Draw(cs.size(), "l.who")];
          FaultCount("idle_poll");
          step(c);
          break;
        }
        case 7:              // somebody joins, or reconnects after losing the link
          if ((int)cs.size() >= want || og.clusters.empty()) break;
          if (Chance(1, 2, "l.drop")) { ++dropped_links; FaultCount("link_lost"); cs[Draw(cs.size(), "l.who")].lost = true; }
          join(false);
          break;
      }
    }
    if (p.chunking && (finalized || !crash)) r.Destroy();
    // A dead producer leaves only what it wrote; its last chunk may never be published.
    og.Update(finalized);
    const bool cut = crash && Chance(1, 2, "l.cut");
    if (cut) FaultCount("connection_cut");
    // faults stop: everything published arrives
    uint64_t rounds = 0;
    for (auto& c : cs) {
      if (c.lost) continue;      // goes away in the middle of its stream
      uint64_t total = c.Total(og.pub.size());
      if (cut && total > c.sent) total = c.sent + Draw(total - c.sent + 1, "l.cutat");
      while (c.sent < total) {
        uint64_t n = Chance(1, 4, "l.tail1") ? 1 + Draw(8, "l.n") : 1 + Magnitude(200000, "l.n");
        if (++rounds > 300) n = total - c.sent;
        c.Send(og.pub, std::min(n, total - c.sent));
        step(c);
      }
      c.t->closed = true;
      step(c);
      // Parsers that ask for one more call at the end get it; then they must have settled.
      for (int i = 0; i < 4 && !c.t->done && !c.t->failed; ++i) step(c);
    }
    r.Destroy();
    if (p.chunking) {
      Origin again{&p, &w, r.chunk_base, {}, {}, 0, false};
      again.Update(true);
      if (again.pub.size() < og.pub.size() || !std::equal(og.pub.begin(), og.pub.end(), again.pub.begin()))
        Fail(K + ":chunk-changed", "a chunk that had been published changed afterwards");
    }
    EvHash(og.pub.data(), og.pub.size());
    FileView v; std::string err;
    if (!ViewFile(og.pub, !finalized, &v, &err)) Fail(K + ":malformed", "the stream is not well formed: %s", err.c_str());
    if (!p.chunking || finalized) {
      // every cluster announced through ElementStartNotify is one
      if (og.clusters.size() < v.clusters.size()) Fail(K + ":notify", "%zu clusters in the stream, %zu announced", v.clusters.size(), og.clusters.size());
      for (size_t i = 0; i < v.clusters.size(); ++i)
        if (og.clusters[i] != v.clusters[i].pos) Fail(K + ":notify", "cluster %zu is at %llu, announced at %llu", i, (ull)v.clusters[i].pos, (ull)og.clusters[i]);
    }
    if (finalized) JudgeFrames(r, og.pub, v, "live");
    for (auto& l : lat) {
      uint64_t n = 0;
      for (auto& b : v.blocks) if (b.end <= l.bytes) ++n;
      if (n < l.must) Fail(K + ":held-back", "%llu frames had to be on the wire when %llu bytes had been written, %llu are", (ull)l.must, (ull)l.bytes, (ull)n);
    }
    size_t ci = 0;
    for (auto& c : cs) {
      const std::string who = Fmt("consumer %zu (%s)", ci++, c.t->Name());
      std::vector<const Blk*> want_blocks;
      for (auto& b : v.blocks) if ((size_t)b.cluster >= c.first_cluster) want_blocks.push_back(&b);
      const int64_t shift = (int64_t)c.prefix - (int64_t)c.from;
      auto check_count = [&](uint64_t bytes, uint64_t seen) {
        uint64_t lo = 0, hi = 0;
        for (auto* b : want_blocks) {
          if ((int64_t)b->end + shift <= (int64_t)bytes) ++lo;
          if ((int64_t)b->pos + shift < (int64_t)bytes) ++hi;
        }
        if (seen < lo) Fail(K + ":lag:" + c.t->Name(), "%s had %llu bytes, which hold %llu whole frames, but reported %llu (status %lld)", who.c_str(), (ull)bytes, (ull)lo, (ull)seen, c.t->status);
        if (seen > hi) Fail(K + ":ahead:" + c.t->Name(), "%s reported %llu frames, %llu had begun to arrive", who.c_str(), (ull)seen, (ull)hi);
      };
      for (size_t i = 0; i < c.t->seen.size() && i < want_blocks.size(); ++i) {
        const SeenFrame& s = c.t->seen[i];
        const Blk& b = *want_blocks[i];
        const bool whole = (int64_t)b.end + shift <= (int64_t)c.sent;
        if (s.track != b.track || s.tc != b.tc || s.len != b.data.size() || s.hash != Fnv(b.data.data(), b.data.size()))
          Fail(K + ":frame:" + c.t->Name(), "%s: frame %zu is track %llu time %lld, %llu bytes; on the wire track %llu time %lld, %zu bytes", who.c_str(), i, (ull)s.track, (ll)s.tc, (ull)s.len, (ull)b.track, (ll)b.tc, b.data.size());
        if (!whole) continue;
        if (s.key != (int)b.key) Fail(K + ":key:" + c.t->Name(), "%s: frame %zu key %d, on the wire %d", who.c_str(), i, s.key, b.key);
        if (s.has_discard != b.has_discard || (b.has_discard && s.discard != b.discard)) Fail(K + ":discard:" + c.t->Name(), "%s: frame %zu discard padding %lld, on the wire %lld", who.c_str(), i, (ll)s.discard, (ll)b.discard);
        if (c.t->Name()[0] == 'w') {
          if (s.has_add != b.has_add || (b.has_add && (s.add_id != b.add_id || s.add != b.add))) Fail(K + ":additional", "%s: frame %zu: additional data differs from the wire", who.c_str(), i);
          if (s.has_dur != b.has_dur || (b.has_dur && s.dur != b.dur)) Fail(K + ":duration", "%s: frame %zu: duration %llu, on the wire %llu", who.c_str(), i, (ull)s.dur, (ull)b.dur);
        }
      }
      for (auto& h : c.hist) check_count(h.first, h.second);
      if (c.t->seen.size() > want_blocks.size()) Fail(K + ":extra:" + c.t->Name(), "%s reported %zu frames, the stream has %zu", who.c_str(), c.t->seen.size(), want_blocks.size());
      if (!want_blocks.empty() && !c.t->seen.empty() && !c.no_header) {
        if (!c.t->has_info || c.t->scale != p.scale) Fail(K + ":scale", "%s: time-code scale %llu, set to %llu", who.c_str(), (ull)c.t->scale, (ull)p.scale);
        std::vector<uint64_t> a = c.t->tracks, b = r.numbers;
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) Fail(K + ":tracks", "%s: track numbers differ", who.c_str());
      }
      if (!cut && !c.lost && finalized && c.sent == c.Total(og.pub.size()) && !(c.t->done || c.sent == 0)) Fail(K + ":end:" + c.t->Name(), "%s got the whole stream but does not report its end (status %lld)", who.c_str(), c.t->status);
      Count("frames_seen", c.t->seen.size());
    }
    Count("consumers", cs.size());
    Count("clusters", v.clusters.size());
    if (cs.size() > 1 && v.clusters.size() > 1 && v.blocks.size() > 3) MarkNontrivial();
  }
  CheckLeak("live");
}
SIM_SCENARIO("C20", C20);

}  // namespace
}  // namespace sim
