// Scenarios for the incremental WebM parser (webm_parser).
#include <algorithm>
#include <new>

#include <istream>
#include <sstream>
#include <streambuf>

#include "simfs.h"
#include "webm/buffer_reader.h"
#include "webm/file_reader.h"
#include "webm/istream_reader.h"
#include "wsession.h"

namespace sim {
namespace {

void CheckLeak(const char* what) {
  if (LiveLibAllocs() != 0) Fail("leak", "%s: %s", what, LiveLibAllocSummary().c_str());
}

// Runs the whole document under a drawn schedule and compares with the model.
void RunAndCompare(Session* s, const RefResult& ref, const char* key, int judge) {
  s->expect = &ref.events;
  s->judge = judge;
  s->key = key;
  int32_t code;
  try {
    code = s->RunToEnd();
  } catch (std::bad_alloc&) {
    // A string/binary element that declares more bytes than memory can hold:
    // the library may report that or let the allocation failure through.
    if (!ref.huge || !HugeAllocRefused()) throw;
    if (s->seen != ref.events.size())
      Fail(std::string(key) + ":missing-events", "out of memory after %zu of %zu notifications", s->seen, ref.events.size());
    Count("huge_element_refused");
    return;
  }
  if (code != ref.status)
    Fail(std::string(key) + ":final-status", "parse ended with status %d at byte %llu, the document calls for %d at byte %llu",
         code, (unsigned long long)s->st.pos, ref.status, (unsigned long long)ref.consumed);
  if (s->seen != ref.events.size())
    Fail(std::string(key) + ":missing-events", "parse ended with status %d after %zu of %zu notifications; next expected [%s]",
         code, s->seen, ref.events.size(), EventStr(ref.events[s->seen]).c_str());
  // Once the outcome is final it stays final.
  size_t seen = s->seen;
  uint64_t pos = s->st.pos;
  for (int i = 0; i < 2; ++i) {
    int32_t again = s->RunToEnd();
    if (again != code || s->seen != seen || s->st.pos != pos)
      Fail(std::string(key) + ":not-final", "after final status %d another feed gave %d (%zu extra notifications, %llu bytes consumed)",
           code, again, s->seen - seen, (unsigned long long)(s->st.pos - pos));
  }
}

DocOpts DrawDocOpts() {
  DocOpts o;
  o.big = Chance(1, 24, "opt.big");
  if (Chance(1, 12, "opt.payload")) o.max_payload = 20000;
  return o;
}

uint64_t DrawBase() {
  return Chance(1, 4, "base?") ? Magnitude(1ULL << 50, "base") : 0;
}

void Whole(int judge, const char* key, bool skip) {
  {
    auto root = GenDocument(DrawDocOpts());
    Bytes doc = Serialise(root.get());
    EvHash(doc.data(), doc.size());
    SkipPlan plan;
    if (skip) { plan.den = (uint32_t)Range(2, 12, "skip.den"); plan.seed = Draw(1 << 20, "skip.seed"); }
    uint64_t base = DrawBase();
    RefResult ref = RefParse(doc, base, 0, false, plan);
    if (ref.status != 0) Fail("harness:generator", "generated document is not well formed: %d at %llu", ref.status, (unsigned long long)ref.consumed);
    Session s(&doc, base, 0, DrawSched(true), plan);
    RunAndCompare(&s, ref, key, judge);
    if (s.st.pos != doc.size()) Fail(std::string(key) + ":unconsumed", "completed with %llu of %zu bytes consumed", (unsigned long long)s.st.pos, doc.size());
    if (s.faults > 0 && ref.events.size() > 5) MarkNontrivial();
    Count("events", ref.events.size());
    Count("doc_bytes", doc.size());
  }
  CheckLeak(key);
}
void C01() { Whole(kJudgeSeq | kJudgeVal, "history", false); }
SIM_SCENARIO("C01", C01);
void C02() { Whole(kJudgeSeq | kJudgeMeta, "metadata", Chance(1, 4, "skip?")); }
SIM_SCENARIO("C02", C02);
void C03() { Whole(kJudgeSeq | kJudgeVal | kJudgeMeta, "skip", true); }
SIM_SCENARIO("C03", C03);

// ---- C04: truncation, malformed input, stickiness, resumption -------------
const char* Malform(Node* root, Bytes* doc) {
  std::vector<Node*> all;
  Flatten(root, &all);
  if (all.empty()) return "none";
  Node* n = all[Draw(all.size(), "mal.node")];
  auto leaf = [&](std::initializer_list<T> ts) -> Node* {
    std::vector<Node*> c;
    for (Node* x : all) for (T t : ts) if (x->type == t) c.push_back(x);
    return c.empty() ? nullptr : c[Draw(c.size(), "mal.leaf")];
  };
  const char* what = "none";
  switch (Draw(12, "mal.kind")) {
    case 0: n->lie_size = n->payload.size() + 1 + Magnitude(1ULL << 54, "mal.lie"); n->unknown_size = false; what = "oversized"; break;
    case 1:
      Serialise(root);
      if (n->body) { n->lie_size = Draw(n->body, "mal.lie"); n->unknown_size = false; }
      what = "undersized";
      break;
    case 2: n->unknown_size = true; n->size_len = (int)Range(1, 8, "mal.unklen"); what = "unknown_size"; break;
    case 3:
      if (Node* l = leaf({T::kUInt, T::kSInt, T::kBool, T::kFloat, T::kDate, T::kId})) {
        size_t len = Draw(14, "mal.len");
        l->payload = MakePayload(Draw(1 << 12, "mal.v"), len);
        what = "bad_scalar_size";
      }
      break;
    case 4:
      if (Node* l = leaf({T::kBool})) { l->payload = MakePayload(Draw(1 << 12, "mal.v"), 1 + Draw(4, "mal.len")); what = "bad_bool"; }
      break;
    case 5: case 6:
      if (Node* l = leaf({T::kBlock, T::kSimpleBlock})) {
        if (Draw(2, "mal.cut")) l->payload.resize(Draw(l->payload.size(), "mal.cutto"));
        else {
          size_t at = Draw(std::min<size_t>(l->payload.size(), 12), "mal.at");
          l->payload[at] = (uint8_t)Draw(256, "mal.byte");
        }
        what = "bad_block";
      }
      break;
    case 7: {
      // recursion deeper than the limit
      Node* tag = nullptr;
      for (Node* x : all) if (x->id == 0x67C8 || x->id == 0xB6) tag = x;
      if (tag) {
        int depth = (int)Range(24, 30, "mal.depth");
        Node* cur = tag;
        for (int i = 0; i < depth; ++i) {
          std::unique_ptr<Node> k(new Node);
          k->id = tag->id; k->type = T::kMaster; k->def = tag->def; k->parent = cur;
          Node* raw = k.get();
          cur->kids.push_back(std::move(k));
          cur = raw;
        }
        what = "deep_recursion";
      }
      break;
    }
    default: break;
  }
  *doc = Serialise(root);
  if (!strcmp(what, "none") && !doc->empty()) {
    size_t at = Draw(2, "mal.hdr") ? n->pos + Draw(n->hs, "mal.off") : Draw(doc->size(), "mal.at");
    (*doc)[at] = Draw(2, "mal.zero") ? 0 : (uint8_t)Draw(256, "mal.byte");
    what = "byte";
  }
  return what;
}

void C04() {
  {
    DocOpts o = DrawDocOpts();
    int mode = (int)Draw(3, "mode");
    if (mode == 0) o.allow_unknown_size = false;
    auto root = GenDocument(o);
    Bytes doc = Serialise(root.get());
    SkipPlan plan;
    if (Chance(1, 4, "skip?")) { plan.den = (uint32_t)Range(2, 12, "skip.den"); plan.seed = Draw(1 << 20, "skip.seed"); }
    uint64_t base = DrawBase();
    int judge = kJudgeSeq | kJudgeVal | kJudgeMeta;
    if (mode <= 1) {
      // Cut the stream at an arbitrary byte.
      std::vector<Node*> all;
      Flatten(root.get(), &all);
      uint64_t cut = Draw(doc.size() + 1, "cut");
      if (!all.empty() && Draw(2, "cut.edge")) {
        Node* n = all[Draw(all.size(), "cut.node")];
        cut = n->pos + Draw(n->hs + 2, "cut.off");
        if (cut > doc.size()) cut = doc.size();
      }
      Bytes part(doc.begin(), doc.begin() + cut);
      RefResult ref = RefParse(part, base, 0, false, plan);
      Session s(&doc, base, 0, DrawSched(true), plan);
      s.st.end = cut;
      if (s.st.avail > cut) s.st.avail = cut;
      FaultCount("stream_cut");
      RunAndCompare(&s, ref, "truncated", judge);
      if (mode == 0 && ref.status == -3) {
        // More bytes turn up: parsing picks up where it stopped.
        RefResult full = RefParse(doc, base, 0, false, plan);
        s.st.end = doc.size();
        s.st.avail = s.sched.p_arrive ? s.st.avail : doc.size();
        FaultCount("stream_resumed");
        Ev("stream grows from %llu to %zu", (unsigned long long)cut, doc.size());
        RunAndCompare(&s, full, "resumed", judge);
      }
      if (ref.status == -3) MarkNontrivial();
      Count(ref.status == -3 ? "premature_end" : ref.status == 0 ? "clean_end" : "parse_error");
    } else {
      Bytes bad;
      const char* what = Malform(root.get(), &bad);
      Ev("malformed: %s", what);
      RefResult ref = RefParse(bad, base, 0, false, plan);
      Session s(&bad, base, 0, DrawSched(true), plan);
      FaultCount((std::string("malformed_") + what).c_str());
      RunAndCompare(&s, ref, "malformed", judge);
      if (ref.status != 0) MarkNontrivial();
      Count(Fmt("status_%d", ref.status).c_str());
    }
  }
  CheckLeak("malformed");
}
SIM_SCENARIO("C04", C04);

// ---- C05: seeking ----------------------------------------------------------
void C05() {
  {
    auto root = GenDocument(DrawDocOpts());
    Bytes doc = Serialise(root.get());
    std::vector<Node*> all;
    Flatten(root.get(), &all);
    if (Chance(1, 6, "mal?")) Malform(root.get(), &doc);
    SkipPlan plan;
    if (Chance(1, 4, "skip?")) { plan.den = (uint32_t)Range(2, 12, "skip.den"); plan.seed = Draw(1 << 20, "skip.seed"); }
    uint64_t base = DrawBase();
    int judge = kJudgeSeq | kJudgeVal | kJudgeMeta;
    Session s(&doc, base, 0, DrawSched(true), plan);
    std::vector<std::unique_ptr<RefResult>> refs;
    uint64_t start = 0;
    bool seeked = false;
    int seeks = (int)Range(1, 4, "seeks");
    for (int i = 0; i <= seeks; ++i) {
      refs.emplace_back(new RefResult(RefParse(doc, base, start, seeked, plan)));
      const RefResult& ref = *refs.back();
      s.expect = &ref.events;
      s.judge = judge;
      s.key = "seek";
      if (i == seeks || Chance(1, 4, "full")) {
        RunAndCompare(&s, ref, "seek", judge);
      } else {
        // Stop somewhere in the middle.
        uint64_t limit = start + Draw(doc.size() - start + 1, "stop");
        uint64_t save = s.st.end;
        s.st.end = limit;
        uint64_t av = s.st.avail;
        // Nothing beyond `limit` has arrived yet: the parser must wait.
        s.st.end = save;
        s.st.avail = limit;
        for (int f = 0; f < 100000; ++f) {
          int32_t code = -1025;
          try {
            code = s.Feed();
          } catch (std::bad_alloc&) {
            if (!ref.huge || !HugeAllocRefused()) throw;
          }
          if (code == 0 || (code <= -1025 && code >= -2048)) break;
          if (s.st.pos >= limit) break;
        }
        s.st.avail = std::max(av, limit);
        if (!s.sched.p_arrive) s.st.avail = s.st.end;
        FaultCount("parse_abandoned");
      }
      if (i == seeks) break;
      if (!all.empty() && !Chance(1, 12, "seek.any")) {
        Node* n = all[Draw(all.size(), "seek.node")];
        start = n->pos;
      } else {
        start = Draw(doc.size() + 1, "seek.pos");
      }
      if (start > doc.size()) start = doc.size();
      seeked = true;
      s.SeekTo(start);
      MarkNontrivial();
    }
  }
  CheckLeak("seek");
}
SIM_SCENARIO("C05", C05);

// ---- C06: reader adapters --------------------------------------------------
struct SimBuf : std::streambuf {
  Bytes data;
  uint64_t pos = 0;       // position of egptr in the source
  char buf[64];
  size_t chunk;
  int seekable;           // 0 no, 1 bounded, 2 past the end (like a file)
  uint64_t seeks = 0, fail_seek = 0, failed = 0; bool sticky = false;
  SimBuf(const Bytes& d, size_t c, int s) : data(d), chunk(c), seekable(s) {}
  int_type underflow() override {
    HarnessScope hs;
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (pos >= data.size()) return traits_type::eof();
    size_t n = std::min<uint64_t>(chunk, data.size() - pos);
    memcpy(buf, data.data() + pos, n);
    pos += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(*gptr());
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    HarnessScope hs;
    if (!seekable) return pos_type(off_type(-1));
    ++seeks;
    if (fail_seek && (seeks == fail_seek || (sticky && seeks > fail_seek))) { ++failed; FaultCount("istream_seek_error"); return pos_type(off_type(-1)); }
    __int128 cur = (__int128)pos - (egptr() - gptr());
    __int128 to = (dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? cur : (__int128)data.size()) + off;
    if (to < 0 || (seekable == 1 && to > (__int128)data.size()) || to > 0x7fffffffffffffffLL) return pos_type(off_type(-1));
    setg(buf, buf, buf);
    pos = (uint64_t)to;
    return pos_type((off_type)to);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
struct SimIstream : std::istream {
  std::unique_ptr<SimBuf> sb;
  SimIstream(const Bytes& d, size_t chunk, int seekable, SimBuf** out) : std::istream(nullptr), sb(new SimBuf(d, chunk, seekable)) { rdbuf(sb.get()); *out = sb.get(); }
};

struct AnyReader {
  int kind;
  std::unique_ptr<webm::BufferReader> b;
  std::unique_ptr<webm::FileReader> f;
  std::unique_ptr<webm::IstreamReader> i;
  SimBuf* sb = nullptr;   // of kinds 3 and 4
  webm::Reader* r() { return b ? (webm::Reader*)b.get() : f ? (webm::Reader*)f.get() : i.get(); }
  void MaybeMove() {
    if (!Chance(1, 12, "ad.move")) return;
    bool assign = Draw(2, "ad.assign");
    FaultCount("reader_moved");
    bool used = assign && Draw(2, "ad.used");    // the target was in use itself
    FILE* other = nullptr;
    if (used && f) {
      FsPlan keep = g_fs.plan, none;
      g_fs.Put("/sim/other", MakePayload(3, 40));
      other = g_fs.Open("/sim/other", "rb");
    }
    LibScope ls;
    if (b) { std::unique_ptr<webm::BufferReader> n(used ? new webm::BufferReader(MakePayload(3, 40)) : assign ? new webm::BufferReader() : new webm::BufferReader(std::move(*b))); if (used) Use(n.get()); if (assign) *n = std::move(*b); Empty(b.get()); b.swap(n); }
    if (f) { std::unique_ptr<webm::FileReader> n(used && other ? new webm::FileReader(other) : assign ? new webm::FileReader() : new webm::FileReader(std::move(*f))); if (used && other) Use(n.get()); if (assign) *n = std::move(*f); Empty(f.get()); f.swap(n); }
    if (i) { std::unique_ptr<webm::IstreamReader> n(used ? new webm::IstreamReader(std::istringstream("0123456789abcdefghijklmnopqrstuvwxyzABCD")) : assign ? new webm::IstreamReader() : new webm::IstreamReader(std::move(*i))); if (used) Use(n.get()); if (assign) *n = std::move(*i); Empty(i.get()); i.swap(n); }
  }
  void Use(webm::Reader* o) { uint8_t x[8]; uint64_t g; o->Read(1 + Draw(8, "ad.use"), x, &g); }
  // A moved-from reader is an empty stream.
  void Empty(webm::Reader* o) {
    uint8_t x; uint64_t g = 9;
    if (o->Read(1, &x, &g).code != -3 || g != 0 || o->Position() != 0) Fail("adapter:moved-from", "moved-from reader is not an empty stream");
    g = 9;
    if (o->Skip(1, &g).code != -3 || g != 0) Fail("adapter:moved-from", "moved-from reader is not an empty stream (skip)");
  }
};
AnyReader MakeReader(const Bytes& src) {
  AnyReader a;
  a.kind = (int)Draw(6, "ad.kind");
  Ev("adapter kind %d", a.kind);
  FsPlan p;
  switch (a.kind) {
    case 0: { LibScope ls; a.b.reset(new webm::BufferReader(src)); break; }
    case 1: case 2: {
      g_fs.Put("/sim/in", src);
      p.p_short_read = (int)Draw(40, "ad.short");
      p.no_seek = a.kind == 2;
      g_fs.SetPlan(p);
      FILE* f = g_fs.Open("/sim/in", "rb");
      int vb = (int)Draw(3, "ad.vbuf");
      if (vb == 1) setvbuf(f, nullptr, _IONBF, 0);
      if (vb == 2) setvbuf(f, nullptr, _IOFBF, 64);
      LibScope ls;
      a.f.reset(new webm::FileReader(f));
      break;
    }
    case 3: case 4: {
      size_t chunk = 1 + Draw(64, "ad.chunk");
      int sk = (int)Draw(3, "ad.seekable");
      LibScope ls;
      a.i.reset(new webm::IstreamReader(webm::IstreamReader::Emplace<SimIstream>(src, chunk, sk, &a.sb)));
      break;
    }
    default: {
      std::istringstream is(std::string(src.begin(), src.end()));
      LibScope ls;
      a.i.reset(new webm::IstreamReader(std::move(is)));
    }
  }
  return a;
}

void C06Ops() {
  Bytes src = MakePayload(Draw(1 << 16, "src.seed"), Magnitude(9000, "src.len"));
  AnyReader a = MakeReader(src);
  uint64_t pos = 0;
  int ops = (int)Range(1, 60, "ops");
  if (a.f && Draw(3, "faults?")) {
    FsPlan p = g_fs.plan;
    p.fail_read = Magnitude(12, "f.read");
    p.fail_seek = Magnitude(12, "f.seek");
    p.sticky = Chance(1, 4, "f.sticky");
    g_fs.SetPlan(p);
  }
  if (a.sb && a.sb->seekable && Draw(3, "faults?")) { a.sb->fail_seek = Magnitude(8, "f.seek"); a.sb->sticky = Chance(1, 4, "f.sticky"); }
  Bytes buf;
  for (int k = 0; k < ops; ++k) {
    a.MaybeMove();
    uint64_t left = src.size() > pos ? src.size() - pos : 0;
    int op = (int)Draw(a.f ? 5 : 4, "op");
    uint64_t fails = g_fs.Failures() + (a.sb ? a.sb->failed : 0);
    uint64_t seekfails = g_fs.failed_seeks + (a.sb ? a.sb->failed : 0);
    uint64_t got = 77777;
    webm::Status st;
    if (op == 4) {
      uint64_t to = Draw(src.size() + 20, "seek.to");
      { LibScope ls; st = a.f->Seek(to); }
      Ev("Seek(%llu) -> %d", (unsigned long long)to, st.code);
      bool should = g_fs.plan.no_seek;
      if (st.code == 0) {
        if (should) Fail("adapter:seek", "Seek succeeded on a pipe");
        pos = to;
        if (a.r()->Position() != pos) Fail("adapter:position", "after Seek(%llu) position is %llu", (unsigned long long)to, (unsigned long long)a.r()->Position());
      } else {
        if (st.code != webm::Status::kSeekFailed) Fail("adapter:seek", "Seek failed with %d", st.code);
        if (!should && g_fs.Failures() + (a.sb ? a.sb->failed : 0) == fails) Fail("adapter:seek", "Seek(%llu) failed without a fault", (unsigned long long)to);
        if (a.r()->Position() != pos) Fail("adapter:position", "failed Seek moved the position");
        if (!should) return;
      }
      continue;
    }
    bool skip = op >= 2;
    uint64_t n = 1 + (Chance(1, 10, "op.huge") ? Magnitude(skip ? ~0ULL - 1 : 20000, "op.n") : Magnitude(1500, "op.n"));
    if (skip && Chance(1, 12, "op.huge32")) n = (Range(1, 3, "op.h32") << 32) + Magnitude(1500, "op.n");
    buf.assign(skip ? 0 : n, 0xCD);
    {
      LibScope ls;
      st = skip ? a.r()->Skip(n, &got) : a.r()->Read((size_t)n, buf.data(), &got);
    }
    Ev("%s(%llu) -> %d got=%llu", skip ? "Skip" : "Read", (unsigned long long)n, st.code, (unsigned long long)got);
    bool fault = g_fs.Failures() + (a.sb ? a.sb->failed : 0) != fails;
    // A failed seek alone never looks like the end of the data.
    if (fault && g_fs.Failures() + (a.sb ? a.sb->failed : 0) - fails == g_fs.failed_seeks + (a.sb ? a.sb->failed : 0) - seekfails && left > 0 && st.code == webm::Status::kEndOfFile)
      Fail("adapter:seek-fault-hidden", "%s(%llu) reports the end of the data after a failed seek, %llu bytes left", skip ? "Skip" : "Read", (unsigned long long)n, (unsigned long long)left);
    if (got > n || got > left) Fail("adapter:overrun", "%s(%llu) reported %llu bytes with %llu left", skip ? "Skip" : "Read", (unsigned long long)n, (unsigned long long)got, (unsigned long long)left);
    bool shape = st.code == 0 ? got == n : st.code == webm::Status::kOkPartial ? got > 0 && got < n : got == 0;
    if (!shape) Fail("adapter:status", "%s(%llu) -> %d with %llu bytes", skip ? "Skip" : "Read", (unsigned long long)n, st.code, (unsigned long long)got);
    if (got == 0 && left > 0 && !fault) Fail("adapter:no-progress", "%s(%llu) -> %d delivered nothing with %llu bytes left", skip ? "Skip" : "Read", (unsigned long long)n, st.code, (unsigned long long)left);
    if (got == 0 && left == 0 && !fault && st.code != -3) Fail("adapter:eof-status", "end of data reported as %d", st.code);
    if (!skip) {
      if (got && memcmp(buf.data(), src.data() + pos, got)) Fail("adapter:bytes", "bytes at %llu differ from the source", (unsigned long long)pos);
      for (uint64_t x = got; x < n && x < got + 4; ++x)
        if (!fault && buf[x] != 0xCD) Fail("adapter:scribble", "buffer written beyond the %llu bytes reported", (unsigned long long)got);
    }
    pos += got;
    if (a.r()->Position() != pos) Fail("adapter:position", "position %llu after consuming %llu bytes", (unsigned long long)a.r()->Position(), (unsigned long long)pos);
    if (st.code == webm::Status::kSeekFailed) return;
    if (k > 3) MarkNontrivial();
  }
}
void C06Parse() {
  auto root = GenDocument(DrawDocOpts());
  Bytes doc = Serialise(root.get());
  uint64_t cut = doc.size();
  if (Draw(2, "cut?")) {
    cut = Draw(doc.size() + 1, "cut");
    std::vector<Node*> all;
    Flatten(root.get(), &all);
    if (!all.empty() && Draw(2, "cut.edge")) { Node* n = all[Draw(all.size(), "cut.node")]; cut = std::min<uint64_t>(doc.size(), n->pos + n->hs + Draw(n->body + 1, "cut.off")); }
    FaultCount("file_truncated");
  }
  Bytes part(doc.begin(), doc.begin() + cut);
  SkipPlan plan;
  if (Chance(1, 2, "skip?")) { plan.den = (uint32_t)Range(1, 8, "skip.den"); plan.seed = Draw(1 << 20, "skip.seed"); }
  AnyReader a = MakeReader(part);
  Sched sc;
  sc.fresh_objects = Draw(2, "fresh");
  sc.default_consume = Draw(2, "defcons");
  sc.p_pause = (int)Draw(8, "pause");
  sc.p_partial = (int)Draw(16, "partial");
  RefResult ref = RefParse(part, 0, 0, false, plan);
  Session s(&part, 0, 0, sc, plan);
  s.backing = a.r();
  RunAndCompare(&s, ref, "adapter", kJudgeSeq | kJudgeVal | kJudgeMeta);
  if (a.kind == 1 && Draw(2, "seek?") && !part.empty()) {
    std::vector<Node*> all;
    Flatten(root.get(), &all);
    uint64_t to = all.empty() ? 0 : std::min<uint64_t>(part.size(), all[Draw(all.size(), "seek.node")]->pos);
    webm::Status st;
    { LibScope ls; st = a.f->Seek(to); }
    if (st.code) Fail("adapter:seek", "Seek(%llu) failed: %d", (unsigned long long)to, st.code);
    s.SeekTo(to);
    RefResult ref2 = RefParse(part, 0, to, true, plan);
    RunAndCompare(&s, ref2, "adapter-seek", kJudgeSeq | kJudgeVal | kJudgeMeta);
  }
  if (ref.events.size() > 3) MarkNontrivial();
}
void C06() {
  g_fs.Reset();
  if (Draw(2, "what")) C06Parse(); else C06Ops();
  if (g_fs.open_handles) Fail("leak:file-handle", "%d files left open", g_fs.open_handles);
  CheckLeak("adapter");
}
SIM_SCENARIO("C06", C06);

// ---- C14: arbitrary bytes --------------------------------------------------
// The payload of a block with any track number length, lacing and lace sizes.
Bytes HostileBlock() {
  Bytes p;
  PutSize(&p, Magnitude(300, "hb.track"), (int)Range(1, 8, "hb.tracklen"));
  PutUIntBE(&p, Draw(1 << 16, "hb.tc"), 2);
  uint8_t flags = (uint8_t)(Draw(4, "hb.lacing") << 1 | (Draw(2, "hb.key") ? 0x80 : 0));
  p.push_back(flags);
  if (flags & 6) {
    int n = (int)Magnitude(255, "hb.n");
    p.push_back((uint8_t)n);
    if ((flags & 6) != 4)
      for (int i = 0; i < n && i < 40; ++i) {
        if ((flags & 6) == 2) { for (uint64_t k = Magnitude(4, "hb.255"); k; --k) p.push_back(255); p.push_back((uint8_t)Magnitude(255, "hb.x")); }
        else if (Chance(1, 10, "hb.bad")) p.push_back((uint8_t)Draw(256, "hb.byte"));
        else PutSize(&p, Chance(1, 4, "hb.big") ? Magnitude((1ULL << 56) - 3, "hb.e") : Magnitude(120, "hb.e"), (int)Draw(9, "hb.elen"));
      }
  }
  Bytes body = MakePayload(Draw(1 << 16, "hb.v"), Magnitude(80, "hb.body"));
  p.insert(p.end(), body.begin(), body.end());
  return p;
}
// Lies about sizes and puts wrong payloads into a valid document.
void LieAbout(Node* root) {
  std::vector<Node*> all;
  Flatten(root, &all);
  if (all.empty()) return;
  int n = (int)Magnitude(5, "lie.n") + 1;
  for (int i = 0; i < n; ++i) {
    Node* x = all[Draw(all.size(), "lie.node")];
    if (Chance(1, 2, "lie.block"))
      for (size_t k = 0; k < all.size(); ++k) {
        Node* y = all[(k + i * 7) % all.size()];
        if (y->type == T::kBlock || y->type == T::kSimpleBlock) { x = y; break; }
      }
    bool block = x->type == T::kBlock || x->type == T::kSimpleBlock;
    if (x->type != T::kMaster) {
      if (block && Draw(4, "lie.hb")) x->payload = HostileBlock();
      else if (Draw(2, "lie.payload")) x->payload = MakePayload(Draw(1 << 16, "lie.v"), Magnitude(Chance(1, 4, "lie.long") ? 300 : 12, "lie.len"));
    }
    if (Draw(2, "lie.size")) {
      uint64_t have = x->type == T::kMaster ? Draw(200, "lie.have") : x->payload.size();
      switch (block ? Draw(8, "lie.how") : Draw(4, "lie.how")) {
        default: x->lie_size = Range(4, 14, "lie.header"); break;   // ends inside or right after the block's header
        case 0: x->lie_size = have > 0 ? Draw(have, "lie.less") : 1; break;
        case 1: x->lie_size = have + 1 + Magnitude(40, "lie.more"); break;
        case 2: x->lie_size = Draw(16, "lie.small"); break;
        case 3: x->lie_size = Magnitude((1ULL << 56) - 3, "lie.huge"); break;
      }
      x->unknown_size = false;
      x->size_len = 0;
    } else if (Chance(1, 4, "lie.unknown")) {
      x->unknown_size = true;
      x->lie_size = kUnkSize;
    }
  }
}
void C14() {
  {
    Bytes doc;
    int mode = (int)Draw(6, "mode");
    if (mode == 0) {
      // Token soup: valid ids with arbitrary sizes and bytes.
      int n = (int)Range(1, 60, "soup.n");
      for (int i = 0; i < n; ++i) {
        switch (Draw(5, "soup.kind")) {
          case 0: case 1: {
            auto& defs = AllDefs();
            const Def& d = defs[Draw(defs.size(), "soup.def")];
            uint32_t id = d.id;
            if (!d.fields.empty() && Draw(3, "soup.field")) id = d.fields[Draw(d.fields.size(), "soup.f")].id;
            PutId(&doc, id);
            if (Chance(1, 6, "soup.unk")) PutUnknownSize(&doc, (int)Range(1, 8, "soup.unklen"));
            else PutSize(&doc, Magnitude(Chance(1, 8, "soup.huge") ? (1ULL << 55) : 60, "soup.size"), (int)Draw(9, "soup.szlen"));
            break;
          }
          case 2: { Bytes p = MakePayload(Draw(1 << 16, "soup.v"), Magnitude(40, "soup.len")); doc.insert(doc.end(), p.begin(), p.end()); break; }
          case 3: doc.push_back((uint8_t)Draw(256, "soup.byte")); break;
          case 4: doc.insert(doc.end(), Draw(12, "soup.zeros"), (uint8_t)(Draw(2, "soup.ff") ? 0xff : 0)); break;
        }
      }
    } else {
      DocOpts o = DrawDocOpts();
      o.max_depth = 29;
      auto root = GenDocument(o);
      if (mode >= 4) LieAbout(root.get());
      doc = Serialise(root.get());
      int n = mode >= 4 ? (int)Draw(2, "mut.one") : (int)Range(1, mode == 3 ? 30 : 4, "mut.n");
      for (int i = 0; i < n && !doc.empty(); ++i) {
        size_t at = Draw(doc.size(), "mut.at");
        switch (Draw(6, "mut.kind")) {
          case 0: doc[at] = (uint8_t)Draw(256, "mut.byte"); break;
          case 1: doc[at] ^= (uint8_t)(1u << Draw(8, "mut.bit")); break;
          case 2: doc[at] = Draw(2, "mut.ff") ? 0xff : 0; break;
          case 3: { size_t len = std::min<size_t>(1 + Magnitude(64, "mut.len"), doc.size() - at); doc.erase(doc.begin() + at, doc.begin() + at + len); break; }
          case 4: { Bytes p = MakePayload(Draw(1 << 16, "mut.v"), 1 + Magnitude(30, "mut.len")); doc.insert(doc.begin() + at, p.begin(), p.end()); break; }
          case 5: {  // splice: copy a range elsewhere
            size_t len = std::min<size_t>(1 + Magnitude(200, "mut.len"), doc.size() - at);
            Bytes p(doc.begin() + at, doc.begin() + at + len);
            size_t to = Draw(doc.size() + 1, "mut.to");
            doc.insert(doc.begin() + to, p.begin(), p.end());
            break;
          }
        }
      }
    }
    FaultCount("hostile_input");
    EvHash(doc.data(), doc.size());
    SkipPlan plan;
    if (Chance(1, 3, "skip?")) { plan.den = (uint32_t)Range(2, 12, "skip.den"); plan.seed = Draw(1 << 20, "skip.seed"); }
    bool seek = Chance(1, 4, "seek?");
    uint64_t start = seek ? Draw(doc.size() + 1, "seek.pos") : 0;
    uint64_t base = DrawBase();
    RefResult ref = RefParse(doc, base, start, seek, plan);
    ResetAllocPeak();
    if (Chance(1, 8, "oom?")) {
      // Out of memory at an arbitrary allocation: the call may throw or report
      // it; the parser must remain destructible and leak nothing.
      try {
        Session s(&doc, base, start, DrawSched(true), plan);
        if (seek) s.DidSeek();
        s.expect = &ref.events;
        s.key = "oom";
        ArmAllocFault(1 + Magnitude(400, "oom.k"), false, 1);
        s.RunToEnd();
        DisarmAllocFault();
      } catch (std::bad_alloc&) {
      }
      DisarmAllocFault();
    } else {
      Session s(&doc, base, start, DrawSched(true), plan);
      if (seek) s.DidSeek();
      RunAndCompare(&s, ref, "hostile", kJudgeSeq | kJudgeVal | kJudgeMeta);
      if (s.st.reads > 64 * (doc.size() + 64) + 40 * s.faults)
        Fail("liveness:work", "%llu reader calls for %zu bytes", (unsigned long long)s.st.reads, doc.size());
    }
    if (ref.status != 0 || ref.events.size() > 3) MarkNontrivial();
    Count(Fmt("status_%d", ref.status).c_str());
  }
  CheckLeak("hostile");
}
SIM_SCENARIO("C14", C14);

}  // namespace
}  // namespace sim
