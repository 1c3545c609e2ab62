// The file adapters MkvReader and MkvWriter on the simulated disk.
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvreader.h"
#include "psession.h"
#include "simfs.h"

namespace sim {
namespace {
typedef unsigned long long ull;
typedef long long ll;
#define L(expr) ([&]() { LibScope ls_; return (expr); }())

FsPlan DrawPlan(uint64_t span) {
  FsPlan p;
  switch (Draw(6, "f.plan")) {
    case 0: break;
    case 1: p.fail_read = 1 + Magnitude(span, "f.k"); p.sticky = Chance(1, 3, "f.sticky"); break;
    case 2: p.fail_seek = 1 + Magnitude(span, "f.k"); p.sticky = Chance(1, 3, "f.sticky"); break;
    case 3: p.fail_write = 1 + Magnitude(span, "f.k"); p.torn = Chance(1, 2, "f.torn"); p.sticky = Chance(1, 3, "f.sticky"); break;
    case 4: p.capacity = Magnitude(40000, "f.cap"); break;
    case 5: p.fail_close = 1; break;
  }
  if (Chance(1, 3, "f.short")) p.p_short_read = (int)Range(1, 40, "f.pshort");
  if (Chance(1, 16, "f.open")) p.fail_open = 1;
  return p;
}

void ReaderRun() {
  Bytes file = MakePayload(Draw(1 << 16, "r.seed"), Magnitude(60000, "r.len"));
  g_fs.Put("/sim/in", file);
  FsPlan plan = DrawPlan(40);
  plan.capacity = ~0ULL;
  const bool pipe = Chance(1, 12, "r.pipe");
  plan.no_seek = pipe;
  const bool own = Chance(2, 3, "r.own");
  FILE* fp = nullptr;
  if (!own) { FsPlan none; g_fs.SetPlan(none); fp = g_fs.Open("/sim/in", "rb"); }
  g_fs.SetPlan(plan);
  mkvparser::MkvReader* r = nullptr;
  {
    LibScope ls;
    r = own ? new mkvparser::MkvReader : new mkvparser::MkvReader(fp);
  }
  bool open = true;
  if (own) {
    int st = L(r->Open("/sim/in"));
    Ev("Open %d", st);
    if (st == 0 && (pipe || g_fs.failed_opens)) Fail("C16:open", "Open reports success although the file could not be %s", pipe ? "measured" : "opened");
    if (st != 0 && !g_fs.Failures() && !pipe) Fail("C16:open", "Open fails although nothing went wrong");
    open = st == 0;
    if (open && L(r->Open("/sim/in")) == 0) Fail("C16:open", "a second Open of an open reader succeeds");
  }
  if (open) {
    ll total = -5, avail = -5;
    int st = L(r->Length(&total, &avail));
    bool hurt = g_fs.Failures() || pipe;
    if (own || !hurt) {
      if (st != 0 || total != (ll)file.size() || avail != (ll)file.size()) Fail("C16:length", "Length gives %d, %lld/%lld; the file has %zu bytes", st, total, avail, file.size());
    } else if (st == 0 && total > (ll)file.size()) Fail("C16:length", "Length gives %lld; the file has %zu bytes", total, file.size());
    uint64_t n = Range(1, 60, "r.n");
    size_t good = 0;
    uint64_t size = file.size();
    for (uint64_t i = 0; i < n; ++i) {
      if (Chance(1, 20, "r.cut") && size) {        // the file shrinks while it is read
        size = Draw(size, "r.cutat");
        Bytes b(file.begin(), file.begin() + size);
        g_fs.Put("/sim/in", b);
        FaultCount("file_truncated");
        file.resize(size);
        // what stdio already buffered may still be delivered: only fresh reads are judged from here on
        break;
      }
      ll pos = Chance(1, 12, "r.past") ? (ll)(file.size() + Draw(50, "r.pp")) - (ll)Draw(50, "r.pm") : (ll)Draw(file.size() + 1, "r.pos");
      long len = (long)Magnitude(9000, "r.len2");
      if (Chance(1, 30, "r.neg")) { if (Chance(1, 2, "r.negp")) pos = -1 - (ll)Draw(100, "r.np"); else len = -1 - (long)Draw(100, "r.nl"); }
      Bytes buf(len > 0 ? len : 0, 0xAA);
      uint64_t before = g_fs.Failures();
      int rs = L(r->Read(pos, len, buf.data()));
      bool possible = pos >= 0 && len >= 0 && (len == 0 || (ull)pos + (ull)len <= file.size());
      Ev("Read %lld+%ld -> %d", pos, len, rs);
      if (rs == 0) {
        if (!possible) Fail("C16:read", "Read(%lld, %ld) succeeds on a file of %zu bytes", pos, len, file.size());
        if (len > 0 && memcmp(buf.data(), file.data() + pos, len) != 0) Fail("C16:read-data", "Read(%lld, %ld) reports success but delivers other bytes than the file has there", pos, len);
        ++good;
      } else if (possible && g_fs.Failures() == before && !hurt && own) {
        Fail("C16:read", "Read(%lld, %ld) fails with %d although nothing went wrong", pos, len, rs);
      }
    }
    if (good > 3 && g_fs.Failures()) MarkNontrivial();
    Count("c16.reads", good);
  }
  { LibScope ls; if (own && Chance(1, 2, "r.close")) r->Close(); delete r; }
  if (!own) {
    if (g_fs.open_handles != 1) Fail("C16:ownership", "the reader closed a file it does not own");
    fclose(fp);
  }
  if (g_fs.open_handles) Fail("C16:handle", "%d file handles are still open", g_fs.open_handles);
}

void WriterRun() {
  FsPlan plan = DrawPlan(12);
  plan.fail_read = 0;
  const bool own = Chance(2, 3, "w.own");
  FILE* fp = nullptr;
  if (!own) { FsPlan none; g_fs.SetPlan(none); fp = g_fs.Open("/sim/out", "wb"); }
  g_fs.SetPlan(plan);
  mkvmuxer::MkvWriter* w = nullptr;
  { LibScope ls; w = own ? new mkvmuxer::MkvWriter : new mkvmuxer::MkvWriter(fp); }
  bool ok = true;
  if (own) {
    bool o = L(w->Open("/sim/out"));
    if (o != (g_fs.failed_opens == 0)) Fail("C16:open", "Open reports %d, the file was %s", o, g_fs.failed_opens ? "not opened" : "opened");
    if (!o) ok = false;
    if (o && L(w->Open("/sim/out2"))) Fail("C16:open", "a second Open of an open writer succeeds");
  }
  Bytes model;
  uint64_t pos = 0;
  if (!w->Seekable()) Fail("C16:seekable", "a file writer says it cannot seek");
  uint64_t n = ok ? Range(1, 60, "w.n") : 0;
  for (uint64_t i = 0; i < n && ok; ++i) {
    if (Chance(1, 4, "w.seek")) {
      uint64_t to = Draw(model.size() + 1, "w.to");
      int st = L(w->Position((mkvmuxer::int64)to));
      Ev("Position(%llu) -> %d", (ull)to, st);
      if (st != 0) { if (!g_fs.Failures()) Fail("C16:seek", "Position(%llu) fails although nothing went wrong", (ull)to); ok = false; break; }
      pos = to;
    } else {
      Bytes b = MakePayload(Draw(1 << 16, "w.seed"), Magnitude(Chance(1, 8, "w.big") ? 9000 : 300, "w.len"));
      int st = L(w->Write(b.data(), (uint32_t)b.size()));
      Ev("Write %zu at %llu -> %d", b.size(), (ull)pos, st);
      if (st != 0) { if (!g_fs.Failures()) Fail("C16:write", "Write of %zu bytes fails although nothing went wrong", b.size()); ok = false; break; }
      if (pos + b.size() > model.size()) model.resize(pos + b.size());
      if (!b.empty()) memcpy(model.data() + pos, b.data(), b.size());
      pos += b.size();
    }
    if (!g_fs.Failures() && L(w->Position()) != (mkvmuxer::int64)pos) Fail("C16:position", "Position() is %lld, %llu expected", (ll)w->Position(), (ull)pos);
  }
  bool closed = L(w->Close());
  Ev("Close -> %d", closed);
  { LibScope ls; delete w; }
  if (!own) {
    if (g_fs.open_handles != 1) Fail("C16:ownership", "the writer closed a file it does not own");
    if (fclose(fp) != 0) ok = false;
  }
  if (!closed && !g_fs.Failures()) Fail("C16:close", "Close fails although nothing went wrong");
  if (g_fs.open_handles) Fail("C16:handle", "%d file handles are still open", g_fs.open_handles);
  if (ok && closed) {
    Bytes got = g_fs.Content("/sim/out");
    if (got != model) Fail("C16:lost-data", "every call succeeded but the file (%zu bytes) is not what was written (%zu bytes)", got.size(), model.size());
  } else Count("c16.reported");
  if (n > 4 && g_fs.Failures()) MarkNontrivial();
}

// A whole file through MkvReader with disk faults: what mkvparser reports over
// the real adapter is right or an error.
void ParseRun() {
  PDocOpts o;
  PDoc d = DrawPDoc(o);
  EvHash(d.b.data(), d.b.size());
  g_fs.Put("/sim/in", d.b);
  FsPlan plan = DrawPlan(60);
  g_fs.SetPlan(plan);
  mkvparser::MkvReader rd;
  if (L(rd.Open("/sim/in")) != 0) { if (!g_fs.Failures()) Fail("C16:open", "Open fails although nothing went wrong"); return; }
  struct Pass : mkvparser::IMkvReader {
    mkvparser::MkvReader* r; const Bytes* b;
    int Read(long long pos, long len, unsigned char* buf) override {
      int st = r->Read(pos, len, buf);
      HarnessScope hs;
      if (st == 0 && len > 0 && ((ull)pos + (ull)len > b->size() || memcmp(buf, b->data() + pos, len) != 0)) Fail("C16:read-data", "Read(%lld, %ld) delivers other bytes than the file has there", pos, len);
      return st;
    }
    int Length(long long* t, long long* a) override { return r->Length(t, a); }
  } pass;
  pass.r = &rd; pass.b = &d.b;
  mkvparser::EBMLHeader* hdr; { LibScope ls; hdr = new mkvparser::EBMLHeader; }
  ll pos = 0; mkvparser::Segment* seg = nullptr;
  size_t blocks = 0; bool err = true;
  do {
    if (L(hdr->Parse(&pass, pos)) != 0) break;
    if (L(mkvparser::Segment::CreateInstance(&pass, pos, seg)) != 0) break;
    if (L(seg->Load()) < 0) break;
    const mkvparser::Cluster* c = L(seg->GetFirst());
    bool bad = false;
    while (c && !c->EOS() && !bad) {
      const mkvparser::BlockEntry* e = nullptr;
      long st = L(c->GetFirst(e));
      while (st == 0 && e && !e->EOS()) {
        if (blocks >= d.blocks.size()) Fail("C16:extra-block", "more blocks than the file has");
        const mkvparser::Block* b = e->GetBlock();
        const PBlock& w = d.blocks[blocks];
        if (b->GetTrackNumber() != w.track || b->GetFrameCount() != (int)w.frames.size()) Fail("C16:block", "block %zu differs", blocks);
        for (int i = 0; i < b->GetFrameCount() && !bad; ++i) { Bytes buf(b->GetFrame(i).len); if (L(b->GetFrame(i).Read(&pass, buf.data())) != 0) bad = true; }
        ++blocks;
        if (bad) break;
        const mkvparser::BlockEntry* n = nullptr;
        st = L(c->GetNext(e, n));
        e = n;
      }
      if (st < 0) bad = true;
      if (!bad) c = L(seg->GetNext(c));
    }
    err = bad;
  } while (0);
  if (err && !g_fs.Failures()) Fail("C16:error", "reading a valid file fails although nothing went wrong");
  if (!err && blocks != d.blocks.size()) Fail("C16:missing-block", "%zu of %zu blocks read, and no error", blocks, d.blocks.size());
  if (g_fs.Failures() && d.blocks.size() > 2) MarkNontrivial();
  { LibScope ls; delete seg; delete hdr; rd.Close(); }
}

// C16: the file adapters never deliver or store wrong bytes without an error.
void C16() {
  g_fs.Reset();
  switch (Draw(3, "c16.which")) {
    case 0: ReaderRun(); break;
    case 1: WriterRun(); break;
    default: ParseRun(); break;
  }
  if (LiveLibAllocs()) Fail("C16:leak", "%s", LiveLibAllocSummary().c_str());
}
SIM_SCENARIO("C16", C16);
}  // namespace
}  // namespace sim
