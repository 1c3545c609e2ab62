// WebM to PES and MPEG-TS conversion on the simulated disk.
#include <algorithm>

#include "common/video_frame.h"
#include "core.h"
#include "m2ts/vpxpes2ts.h"
#include "m2ts/vpxpes_parser.h"
#include "m2ts/webm2pes.h"
#include "simfs.h"

namespace sim {
namespace {
typedef unsigned long long ull;
typedef long long ll;
#define L(expr) ([&]() { LibScope ls_; return (expr); }())

void PutId(Bytes* o, uint32_t id) { for (int i = id > 0xffffff ? 3 : id > 0xffff ? 2 : id > 0xff ? 1 : 0; i >= 0; --i) o->push_back((uint8_t)(id >> (8 * i))); }
void PutVint(Bytes* o, uint64_t v, int len) { uint64_t x = v | (1ULL << (7 * len)); for (int i = len - 1; i >= 0; --i) o->push_back((uint8_t)(x >> (8 * i))); }
int VintLen(uint64_t v) { int n = 1; while (v >= (1ULL << (7 * n)) - 1) ++n; return n; }
void PutEl(Bytes* o, uint32_t id, const Bytes& body) { PutId(o, id); PutVint(o, body.size(), VintLen(body.size())); o->insert(o->end(), body.begin(), body.end()); }
void PutUInt(Bytes* o, uint32_t id, uint64_t v) { Bytes b; int n = 1; while (n < 8 && (v >> (8 * n))) ++n; for (int i = n - 1; i >= 0; --i) b.push_back((uint8_t)(v >> (8 * i))); PutEl(o, id, b); }
void PutStr(Bytes* o, uint32_t id, const char* s) { PutEl(o, id, Bytes(s, s + strlen(s))); }

struct TsFrame { uint64_t ticks; Bytes data; };           // one PES frame
struct TsDoc { Bytes b; std::vector<TsFrame> frames; std::vector<int> packets; bool big = false; };

// Bytes rich in the sequences that need escaping.
Bytes Emulating(uint64_t seed, size_t len) {
  uint64_t x = seed * 0x9E3779B97F4A7C15ULL + 1;
  static const uint8_t kAlpha[16] = {0, 0, 0, 0, 0, 0, 1, 1, 3, 3, 2, 4, 0xff, 0xe0, 0x47, 0x80};
  Bytes b(len);
  const int mode = (int)(seed % 4);
  for (size_t i = 0; i < len; ++i) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    uint64_t r = x >> 20;
    if (mode == 0) b[i] = kAlpha[r % 16];
    else if (mode == 1) b[i] = (r & 31) ? (uint8_t)(r >> 8) : 0;
    else if (mode == 2) b[i] = (r % 5) ? 0 : kAlpha[(r >> 8) % 16];
    else b[i] = (uint8_t)(r >> 8);
  }
  return b;
}

size_t DrawFrameLen(TsDoc* d) {
  if (!d->big && Chance(1, 12, "t.bigf")) {
    d->big = true;
    switch (Draw(4, "t.bigk")) {
      case 0: return 32768 - 3 + Draw(7, "t.b0");
      case 1: return 65536 - 3 + Draw(7, "t.b1");
      case 2: return 32769 + Draw(100000, "t.b2");
      default: return 65535 - 30 + Draw(40, "t.b3");
    }
  }
  if (Chance(1, 4, "t.ts")) return 184 * Range(1, 3, "t.tsn") - 40 + Draw(45, "t.tso");   // around a TS packet
  if (Chance(1, 6, "t.len256")) return 236 + Draw(30, "t.l256");                          // BCMV length 0x100
  return 1 + Magnitude(600, "t.len");
}

TsDoc DrawTsDoc() {
  TsDoc d;
  Bytes hdr, ebml;
  PutUInt(&hdr, 0x4286, 1); PutUInt(&hdr, 0x42F7, 1); PutUInt(&hdr, 0x42F2, 4); PutUInt(&hdr, 0x42F3, 8);
  PutStr(&hdr, 0x4282, "webm"); PutUInt(&hdr, 0x4287, 4); PutUInt(&hdr, 0x4285, 2);
  PutEl(&d.b, 0x1A45DFA3, hdr);
  Bytes seg, info, tracks;
  const uint64_t scale = Pick<uint64_t>({1000000, 1000000, 100000, 333333, 10000000}, "t.scale");
  PutUInt(&info, 0x2AD7B1, scale); PutStr(&info, 0x4D80, "sim"); PutStr(&info, 0x5741, "sim");
  PutEl(&seg, 0x1549A966, info);
  const int nt = (int)Range(1, 4, "t.nt");
  std::vector<int> num, type; int video = -1; bool vp9 = false;
  for (int i = 0; i < nt; ++i) {
    int n = Chance(1, 3, "t.sparse") ? (int)Range(1, 126, "t.no") : i + 1;
    while (std::find(num.begin(), num.end(), n) != num.end()) n = n % 126 + 1;
    num.push_back(n);
    int ty = i + 1 == nt && video < 0 ? 1 : Chance(1, 2, "t.video") ? 1 : 2;
    type.push_back(ty);
    Bytes t;
    PutUInt(&t, 0xD7, (uint64_t)n); PutUInt(&t, 0x73C5, (uint64_t)n + 77); PutUInt(&t, 0x83, ty);
    if (ty == 1) {
      bool v9 = Chance(1, 2, "t.vp9");
      if (video < 0) { video = n; vp9 = v9; }
      PutStr(&t, 0x86, v9 ? "V_VP9" : "V_VP8");
      Bytes v; PutUInt(&v, 0xB0, 16); PutUInt(&v, 0xBA, 16); PutEl(&t, 0xE0, v);
    } else {
      PutStr(&t, 0x86, "A_VORBIS");
      Bytes v; PutUInt(&v, 0x9F, 1); PutEl(&t, 0xE1, v);
    }
    PutEl(&tracks, 0xAE, t);
  }
  PutEl(&seg, 0x1654AE6B, tracks);
  const int nc = (int)Range(1, 4, "t.nc");
  const uint64_t kMaxTicks = 30ULL * 3600 * 1000000000ULL / scale;   // past the 33 bit wrap
  uint64_t tc = Chance(1, 3, "t.late") ? Magnitude(kMaxTicks, "t.start") : Draw(3000, "t.start0");
  for (int c = 0; c < nc; ++c) {
    Bytes cl;
    PutUInt(&cl, 0xE7, tc);
    int nb = (int)Range(1, 6, "t.nb");
    int64_t rel = 0;
    for (int k = 0; k < nb; ++k) {
      int ti = (int)Draw(num.size(), "t.track");
      Bytes blk;
      PutVint(&blk, (uint64_t)num[ti], 1);
      blk.push_back((uint8_t)((uint16_t)rel >> 8)); blk.push_back((uint8_t)rel);
      const bool lace = Chance(1, 10, "t.lace");
      const int nf = lace ? (int)Range(2, 4, "t.nf") : 1;
      blk.push_back((uint8_t)(0x80 | (lace ? 4 : 0)));           // fixed-size lacing
      if (lace) blk.push_back((uint8_t)(nf - 1));
      const size_t lacelen = lace ? 1 + Magnitude(300, "t.lacelen") : 0;
      for (int f = 0; f < nf; ++f) {
        const bool mine = num[ti] == video;
        const uint64_t ns = (tc + (uint64_t)rel) * scale;
        const uint64_t ticks = (uint64_t)((unsigned __int128)ns * 90000 / 1000000000);
        Bytes fr;
        if (mine && vp9 && !lace && Chance(1, 5, "t.super")) {
          int ns2 = (int)Range(1, 8, "t.subs");
          std::vector<Bytes> sub; size_t mx = 0, total = 0;
          for (int s = 0; s < ns2; ++s) { size_t l = s == 0 ? 34 + DrawFrameLen(&d) : DrawFrameLen(&d); sub.push_back(Emulating(Draw(1 << 16, "t.seed"), l)); mx = std::max(mx, l); total += l; }
          int mag = 1; while (mag < 4 && (mx >> (8 * mag))) ++mag;
          if (mag < 4 && Chance(1, 4, "t.mag")) ++mag;
          uint8_t marker = (uint8_t)(0xC0 | ((mag - 1) << 3) | (ns2 - 1));
          for (auto& s : sub) fr.insert(fr.end(), s.begin(), s.end());
          if (Chance(1, 8, "t.subpad")) { Bytes pad = Emulating(Draw(1 << 16, "t.seed"), 1 + Draw(9, "t.padl")); fr.insert(fr.end(), pad.begin(), pad.end()); }
          fr.push_back(marker);
          for (auto& s : sub) for (int m = 0; m < mag; ++m) fr.push_back((uint8_t)(s.size() >> (8 * m)));
          fr.push_back(marker);
          for (auto& s : sub) d.frames.push_back({ticks, s});
          d.packets.push_back(ns2);
          Count("c17.superframes");
        } else {
          fr = Emulating(Draw(1 << 16, "t.seed"), lace ? lacelen : DrawFrameLen(&d));
          if (mine && vp9 && (fr.back() & 0xe0) == 0xc0) fr.back() &= 0x1f;
          if (mine) { d.frames.push_back({ticks, fr}); d.packets.push_back(1); }
        }
        blk.insert(blk.end(), fr.begin(), fr.end());
      }
      if (Chance(1, 4, "t.group")) {
        Bytes g; blk[3] &= 0x7f; PutEl(&g, 0xA1, blk); PutEl(&cl, 0xA0, g);
      } else PutEl(&cl, 0xA3, blk);
      rel += (int64_t)Magnitude(200, "t.step");
    }
    PutEl(&seg, 0x1F43B675, cl);
    tc += (uint64_t)rel + Magnitude(40000, "t.gap");
  }
  PutEl(&d.b, 0x18538067, seg);
  return d;
}

// ------------------------------------------------ independent demultiplexers
// Removes escape bytes until n plain bytes were taken.
Bytes Unescape(const Bytes& b, size_t* pos, size_t n, const char* what) {
  Bytes out; int zeros = 0;
  while (out.size() < n) {
    if (*pos >= b.size()) Fail("C17:pes-short", "the PES stream ends inside %s", what);
    uint8_t c = b[(*pos)++];
    if (c == 0) ++zeros;
    else {
      if (zeros >= 2 && c == 1) Fail("C17:emulation", "an unescaped start code inside %s at byte %zu", what, *pos - 3);
      if (zeros >= 2 && c == 3) { zeros = 0; if (*pos >= b.size() || (b[*pos] != 1 && b[*pos] != 3)) Fail("C17:emulation", "an escape byte before a byte that needs none, at %zu", *pos); c = b[(*pos)++]; }
      zeros = 0;
    }
    out.push_back(c);
  }
  return out;
}

std::vector<TsFrame> DemuxPes(const Bytes& b, std::vector<size_t>* ends = nullptr) {
  std::vector<TsFrame> out;
  size_t pos = 0, want = 0;
  while (pos < b.size()) {
    if (pos + 6 > b.size() || b[pos] || b[pos + 1] || b[pos + 2] != 1 || (b[pos + 3] & 0xf0) != 0xe0) Fail("C17:start-code", "no video packet start code at byte %zu of the PES stream", pos);
    size_t len = (size_t)b[pos + 4] << 8 | b[pos + 5];
    pos += 6;
    if (len < 9) Fail("C17:packet-length", "packet length %zu", len);
    Bytes oh = Unescape(b, &pos, 9, "the optional header");
    const bool has_pts = oh[1] & 0x80;
    if ((oh[0] & 0xc0) != 0x80 || (oh[0] & 0x3f) || (oh[1] & 0x7f) || oh[2] != 6) Fail("C17:optional-header", "optional header %s", Hex(oh.data(), 9).c_str());
    for (size_t i = has_pts ? 8 : 3; i < 9; ++i) if (oh[i] != 0xff) Fail("C17:optional-header", "stuffing %s", Hex(oh.data(), 9).c_str());
    size_t payload = len - 9;
    const bool first = want == 0;
    if (first != has_pts) Fail("C17:pts-flag", "packet %s a time stamp", has_pts ? "inside a frame has" : "that starts a frame lacks");
    if (first) {
      if ((oh[3] & 0xf1) != 0x21 || !(oh[5] & 1) || !(oh[7] & 1)) Fail("C17:pts-markers", "PTS field %s", Hex(&oh[3], 5).c_str());
      uint64_t pts = (uint64_t)(oh[3] >> 1 & 7) << 30 | (uint64_t)oh[4] << 22 | (uint64_t)(oh[5] >> 1) << 15 | (uint64_t)oh[6] << 7 | oh[7] >> 1;
      if (payload < 10) Fail("C17:packet-length", "no room for the frame header");
      Bytes bc = Unescape(b, &pos, 10, "the frame header");
      if (memcmp(bc.data(), "BCMV", 4) || bc[8] || bc[9]) Fail("C17:bcmv", "frame header %s", Hex(bc.data(), 10).c_str());
      uint32_t total = (uint32_t)bc[4] << 24 | bc[5] << 16 | bc[6] << 8 | bc[7];
      if (total <= 10) Fail("C17:bcmv", "frame length %u", total);
      want = total - 10;
      payload -= 10;
      out.push_back({pts, {}});
    }
    if (payload == 0 || payload > want) Fail("C17:packet-length", "packet of %zu bytes in a frame that lacks %zu", payload, want);
    Bytes p = Unescape(b, &pos, payload, "the payload");
    out.back().data.insert(out.back().data.end(), p.begin(), p.end());
    want -= payload;
    if (want == 0 && ends) ends->push_back(pos);
  }
  if (want) Fail("C17:pes-short", "the last frame lacks %zu bytes", want);
  return out;
}

bool TicksMatch(uint64_t got, uint64_t want) {
  const uint64_t m = (1ULL << 33) - 1;
  uint64_t d = (got - want) & m;
  return d <= 1 || d == m;
}

void CompareFrames(const std::vector<TsFrame>& got, const std::vector<TsFrame>& want, const char* what) {
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    if (got[i].data != want[i].data) Fail("C17:frame-data", "%s: frame %zu has %zu bytes, other bytes than the source (%zu)", what, i, got[i].data.size(), want[i].data.size());
    if (!TicksMatch(got[i].ticks, want[i].ticks)) Fail("C17:pts", "%s: frame %zu has PTS %llu, the source has %llu", what, i, (ull)got[i].ticks, (ull)(want[i].ticks & ((1ULL << 33) - 1)));
  }
  if (got.size() != want.size()) Fail("C17:frame-count", "%s: %zu frames, the source has %zu", what, got.size(), want.size());
}

// Strips the transport packets; checks sync, PID, continuity and stuffing.
Bytes DemuxTs(const Bytes& b, size_t units) {
  if (b.size() % 188) Fail("C17:ts-size", "the transport stream has %zu bytes", b.size());
  Bytes out; int cc = -1; size_t starts = 0;
  for (size_t p = 0; p < b.size(); p += 188) {
    const uint8_t* k = &b[p];
    if (k[0] != 0x47) Fail("C17:ts-sync", "packet %zu has no sync byte", p / 188);
    if ((k[1] & 0x80) || (((k[1] & 0x1f) << 8) | k[2]) != 0x20 || (k[3] & 0xc0)) Fail("C17:ts-header", "packet %zu header %s", p / 188, Hex(k, 4).c_str());
    if (k[1] & 0x40) ++starts;
    if (p == 0 && !(k[1] & 0x40)) Fail("C17:ts-start", "the first packet does not start a unit");
    int c = k[3] & 0xf;
    if (cc >= 0 && c != ((cc + 1) & 0xf)) Fail("C17:ts-continuity", "packet %zu has continuity counter %d after %d", p / 188, c, cc);
    cc = c;
    if (!(k[3] & 0x10)) Fail("C17:ts-header", "packet %zu without payload", p / 188);
    size_t off = 4;
    if (k[3] & 0x20) {
      size_t al = k[4];
      off = 5 + al;
      if (al > 182) Fail("C17:ts-adaptation", "adaptation field of %zu bytes", al);
      if (al && k[5]) Fail("C17:ts-adaptation", "adaptation flags %x", k[5]);
      for (size_t i = 6; i < off; ++i) if (k[i] != 0xff) Fail("C17:ts-adaptation", "stuffing byte %x", k[i]);
    }
    out.insert(out.end(), k + off, k + 188);
  }
  if (starts != units) Fail("C17:ts-start", "%zu unit starts for %zu frames", starts, units);
  return out;
}

void ReadBack(const std::string& path, const std::vector<TsFrame>& want, size_t complete, const char* key_extra) {
  libwebm::VpxPesParser* ps;
  { LibScope ls; ps = new libwebm::VpxPesParser; }
  uint64_t before = g_fs.Failures();
  bool ok = L(ps->Open(path));
  if (!ok) {
    if (g_fs.Failures() == before && g_fs.Content(path).size()) Fail("C17:parser-open", "Open fails although nothing went wrong");
  } else {
    if (g_fs.Content(path) != ps->pes_file_data()) Fail("C17:parser-data", "Open succeeds with other bytes than the file");
    const bool reuse = Chance(1, 2, "t.reuse");
    libwebm::VpxPesParser::PesHeader* h; libwebm::VideoFrame* f;
    { LibScope ls; h = new libwebm::VpxPesParser::PesHeader; f = new libwebm::VideoFrame; }
    size_t n = 0;
    bool lost = false;          // one frame may fall to a failing allocation
    for (;;) {
      if (!L(ps->ParseNextPacket(h, f))) {
        if (lost || !AllocFaultFired()) break;
        lost = true; ++n;
        continue;
      }
      if (n >= complete) Fail("C17:parser-extra", "%s: frame %zu read back, %zu expected", key_extra, n + 1, complete);
      const TsFrame& w = want[n];
      if (f->buffer().length != w.data.size() || memcmp(f->buffer().data.get(), w.data.data(), w.data.size())) Fail("C17:parser-frame", "%s: frame %zu read back has %zu bytes, other than the %zu converted", key_extra, n, f->buffer().length, w.data.size());
      if (!TicksMatch(h->opt_header.pts, w.ticks)) Fail("C17:parser-pts", "%s: frame %zu read back has PTS %llu, %llu expected", key_extra, n, (ull)h->opt_header.pts, (ull)(w.ticks & ((1ULL << 33) - 1)));
      ll ns = (ll)((unsigned __int128)h->opt_header.pts * 1000000000 / 90000), dn = f->nanosecond_pts() - ns;
      if (dn < -12000 || dn > 12000) Fail("C17:parser-pts", "frame %zu read back at %lld ns, %lld expected", n, (ll)f->nanosecond_pts(), ns);
      if (h->bcmv_header.length != w.data.size() + 10) Fail("C17:parser-header", "frame %zu has header length %u", n, h->bcmv_header.length);
      ++n;
      if (!reuse) { LibScope ls; delete h; delete f; h = new libwebm::VpxPesParser::PesHeader; f = new libwebm::VideoFrame; }
    }
    if (n != complete && !lost) Fail("C17:parser-lost", "%s: %zu frames read back, %zu expected", key_extra, n, complete);
    if (complete == want.size() && !AllocFaultFired() && ps->BytesAvailable() != 0) Fail("C17:parser-rest", "%d bytes left after the last frame", ps->BytesAvailable());
    for (int i = 0; i < 2; ++i) if (L(ps->ParseNextPacket(h, f)) && n == complete) Fail("C17:parser-extra", "%s: a frame after the end", key_extra);
    { LibScope ls; delete h; delete f; }
  }
  { LibScope ls; delete ps; }
}

FsPlan DrawConvPlan() {
  FsPlan p;
  switch (Draw(8, "m.plan")) {
    case 0: case 1: case 2: break;
    case 3: p.fail_read = 1 + Magnitude(40, "m.k"); p.sticky = Chance(1, 3, "m.sticky"); break;
    case 4: p.fail_seek = 1 + Magnitude(60, "m.k"); p.sticky = Chance(1, 3, "m.sticky"); break;
    case 5: p.fail_write = 1 + Magnitude(12, "m.k"); p.torn = Chance(1, 2, "m.torn"); p.sticky = Chance(1, 3, "m.sticky"); break;
    case 6: p.capacity = Magnitude(20000, "m.cap"); break;
    case 7: if (Chance(1, 2, "m.open")) p.fail_open = 1 + Draw(2, "m.openk"); else { p.fail_close = 1 + Draw(2, "m.closek"); p.lossy_close = true; } break;
  }
  if (Chance(1, 4, "m.short")) p.p_short_read = (int)Range(1, 40, "m.pshort");
  return p;
}

struct Sink : libwebm::PacketReceiverInterface {
  Bytes all; size_t calls = 0, refuse = 0; bool after = false; std::vector<size_t> sizes;
  bool ReceivePacket(const libwebm::PacketDataBuffer& p) override {
    HarnessScope hs;
    if (after) Fail("C17:sink", "a packet is sent after the receiver refused one");
    ++calls;
    if (refuse && calls == refuse) { after = true; FaultCount("sink_refuses"); return false; }
    all.insert(all.end(), p.begin(), p.end());
    sizes.push_back(p.size());
    return true;
  }
};

// C17: conversion keeps every frame or reports failure.
void C17() {
  g_fs.Reset();
  TsDoc d = DrawTsDoc();
  EvHash(d.b.data(), d.b.size());
  g_fs.Put("/sim/in", d.b);
  const int which = (int)Draw(4, "m.which");
  FsPlan plan = DrawConvPlan();
  g_fs.SetPlan(plan);
  const bool alloc = Chance(1, 10, "m.alloc");
  if (alloc) ArmAllocFault(1 + Magnitude(60, "m.ak"), true, 1 + Draw(2, "m.ab"));
  bool ok; bool refused = false;
  Bytes pes;
  if (which == 0 || which == 3) {
    libwebm::Webm2Pes* c; { LibScope ls; c = new libwebm::Webm2Pes("/sim/in", "/sim/out"); }
    ok = L(c->ConvertToFile());
    uint64_t bw = c->bytes_written();
    { LibScope ls; delete c; }
    pes = g_fs.Content("/sim/out");
    if (ok && bw != pes.size()) Fail("C17:lost-data", "conversion succeeds and says %llu bytes, the file has %zu", (ull)bw, pes.size());
  } else if (which == 1) {
    Sink s;
    if (Chance(1, 8, "m.refuse")) s.refuse = 1 + Draw(8, "m.refk");
    libwebm::Webm2Pes* c; { LibScope ls; c = new libwebm::Webm2Pes("/sim/in", &s); }
    ok = L(c->ConvertToPacketReceiver());
    uint64_t bw = c->bytes_written();
    { LibScope ls; delete c; }
    refused = s.after;
    if (ok && refused) Fail("C17:sink", "conversion succeeds although the receiver refused a packet");
    if (ok && s.calls != d.packets.size()) Fail("C17:sink", "%zu packets for %zu frames", s.calls, d.packets.size());
    if (ok && bw != s.all.size()) Fail("C17:bytes-written", "bytes_written %llu, sent %zu", (ull)bw, s.all.size());
    pes = s.all;
  } else {
    libwebm::VpxPes2Ts* c; { LibScope ls; c = new libwebm::VpxPes2Ts("/sim/in", "/sim/out"); }
    ok = L(c->ConvertToFile());
    { LibScope ls; delete c; }
    if (ok) pes = DemuxTs(g_fs.Content("/sim/out"), d.packets.size());
  }
  const bool hurt = g_fs.Failures() || AllocFaultFired() || refused;
  DisarmAllocFault();
  Ev("convert %d ok %d faults %llu pes %zu", which, ok, (ull)g_fs.Failures(), pes.size());
  if (g_fs.open_handles) Fail("C17:handle", "%d file handles are still open", g_fs.open_handles);
  if (!ok && !hurt) Fail("C17:refused", "converting a valid file fails although nothing went wrong");
  if (ok) {
    std::vector<size_t> ends;
    CompareFrames(DemuxPes(pes, &ends), d.frames, which == 2 ? "TS" : "PES");
    if (d.frames.size() > 1) MarkNontrivial();
    if (which == 3 && !d.frames.empty()) {
      FsPlan rp;
      size_t complete = d.frames.size();
      if (Chance(1, 3, "m.cut")) {
        size_t cut = Draw(pes.size(), "m.cutat");
        if (Chance(1, 2, "m.cutnear")) { size_t e = ends[Draw(ends.size(), "m.cute")] + Draw(24, "m.cuto"); if (e >= 12) cut = std::min(pes.size(), e - 12); }
        g_fs.Put("/sim/out", Bytes(pes.begin(), pes.begin() + cut));
        complete = 0;
        while (complete < ends.size() && ends[complete] <= cut) ++complete;
        FaultCount("pes_truncated");
      }
      if (Chance(1, 6, "m.rfault")) { if (Chance(1, 3, "m.ro")) rp.fail_open = 1; else rp.fail_read = 1 + Draw(6, "m.rk"); }
      if (Chance(1, 4, "m.rshort")) rp.p_short_read = (int)Range(1, 40, "m.rps");
      g_fs.SetPlan(rp);
      if (Chance(1, 12, "m.ralloc")) ArmAllocFault(1 + Magnitude(6, "m.rak"), true);
      ReadBack("/sim/out", d.frames, complete, complete == d.frames.size() ? "whole" : "cut");
      DisarmAllocFault();
      if (g_fs.open_handles) Fail("C17:handle", "%d file handles are still open", g_fs.open_handles);
    }
  } else Count("c17.reported");
  if (LiveLibAllocs()) Fail("C17:leak", "%s", LiveLibAllocSummary().c_str());
}
SIM_SCENARIO("C17", C17);

// C18: damaged PES streams never harm the PES reader.
void C18() {
  g_fs.Reset();
  Bytes pes; std::vector<TsFrame> fr; std::vector<size_t> ends;
  if (Chance(3, 4, "h.doc")) {
    TsDoc d = DrawTsDoc();
    g_fs.Put("/sim/in", d.b);
    Sink s;
    libwebm::Webm2Pes* c; { LibScope ls; c = new libwebm::Webm2Pes("/sim/in", &s); }
    bool ok = L(c->ConvertToPacketReceiver());
    { LibScope ls; delete c; }
    if (!ok) Fail("C18:refused", "converting a valid file fails");
    pes = s.all; fr = d.frames;
    DemuxPes(pes, &ends);
  } else {
    int n = (int)Range(1, 12, "h.soup");
    for (int i = 0; i < n; ++i) {
      switch (Draw(5, "h.tok")) {
        case 0: { const uint8_t sc[4] = {0, 0, 1, (uint8_t)(0xdf + Draw(18, "h.sid"))}; pes.insert(pes.end(), sc, sc + 4); break; }
        case 1: { uint64_t v = Magnitude(70000, "h.len"); pes.push_back((uint8_t)(v >> 8)); pes.push_back((uint8_t)v); break; }
        case 2: { uint8_t oh[9] = {0x80, (uint8_t)(Chance(1, 2, "h.pts") ? 0x80 : 0), 6, 0x21, 0, 1, 0, 1, 0xff}; if (!oh[1]) memset(oh + 3, 0xff, 5); pes.insert(pes.end(), oh, oh + 9); break; }
        case 3: { uint8_t bc[10] = {'B', 'C', 'M', 'V', 0, 0, (uint8_t)Draw(2, "h.bh"), (uint8_t)Draw(40, "h.bl"), 0, 0}; if (Chance(1, 8, "h.bx")) bc[4] = 0xff; pes.insert(pes.end(), bc, bc + 10); break; }
        case 4: { Bytes x = Emulating(Draw(1 << 16, "h.s"), 1 + Magnitude(80, "h.sl")); pes.insert(pes.end(), x.begin(), x.end()); break; }
      }
    }
  }
  size_t touched = pes.size();
  if (!fr.empty() && !pes.empty()) {
    int n = (int)Range(1, 8, "h.n");
    const bool aim = Chance(1, 2, "h.aim");
    for (int i = 0; i < n && !pes.empty(); ++i) {
      size_t at = Draw(pes.size(), "h.at");
      if (aim) { size_t e = Draw(ends.size() + 1, "h.e"); at = std::min(pes.size() - 1, (e ? ends[e - 1] : 0) + Draw(30, "h.o")); }
      touched = std::min(touched, at);
      switch (Draw(4, "h.kind")) {
        case 0: pes[at] = (uint8_t)Draw(256, "h.byte"); break;
        case 1: { size_t l = 1 + Magnitude(pes.size() - at - 1 < 300 ? pes.size() - at - 1 : 300, "h.dl"); l = std::min(l, pes.size() - at); pes.erase(pes.begin() + at, pes.begin() + at + l); break; }
        case 2: { Bytes x = Emulating(Draw(1 << 16, "h.s"), 1 + Draw(20, "h.il")); pes.insert(pes.begin() + at, x.begin(), x.end()); break; }
        case 3: pes.resize(at); break;
      }
    }
    FaultCount("pes_damaged");
  }
  EvHash(pes.data(), pes.size());
  g_fs.Put("/sim/pes", pes);
  size_t intact = 0;
  while (intact < ends.size() && ends[intact] <= touched) ++intact;
  if (fr.empty()) intact = 0;
  libwebm::VpxPesParser* ps; { LibScope ls; ps = new libwebm::VpxPesParser; }
  if (Chance(1, 8, "h.alloc")) ArmAllocFault(1 + Magnitude(8, "h.ak"), true);
  bool ok = L(ps->Open("/sim/pes"));
  if (ok != !pes.empty()) Fail("C18:open", "Open of a file of %zu bytes gives %d", pes.size(), ok);
  if (ok) {
    libwebm::VpxPesParser::PesHeader h; libwebm::VideoFrame* f; { LibScope ls; f = new libwebm::VideoFrame; }
    size_t n = 0, idle = 0, total = 0; int avail = ps->BytesAvailable();
    for (int i = 0; i < 2000 && idle < 4; ++i) {
      bool got = L(ps->ParseNextPacket(&h, f));
      if (ps->BytesAvailable() < 0 || (got && ps->BytesAvailable() >= avail)) Fail("C18:progress", "%d bytes available before, %d after", avail, ps->BytesAvailable());
      if (got) {
        avail = ps->BytesAvailable();
        total += f->buffer().length;
        EvHash(f->buffer().data.get(), f->buffer().length);
        if (f->buffer().length == 0) Fail("C18:empty", "an empty frame is reported");
        if (total > pes.size()) Fail("C18:invented", "%zu bytes of frames in a stream of %zu bytes", total, pes.size());
        if (n < intact && !AllocFaultFired() && (f->buffer().length != fr[n].data.size() || memcmp(f->buffer().data.get(), fr[n].data.data(), fr[n].data.size()))) Fail("C18:frame", "frame %zu before the damage differs", n);
        ++n; idle = 0;
      } else { ++idle; if (n < intact && !AllocFaultFired()) Fail("C18:lost", "frame %zu lies before the damage and is not reported", n); }
    }
    Count("c18.frames", n);
    if (n || intact) MarkNontrivial();
    { LibScope ls; delete f; }
  }
  DisarmAllocFault();
  { LibScope ls; delete ps; }
  if (g_fs.open_handles) Fail("C18:handle", "%d file handles are still open", g_fs.open_handles);
  if (LiveLibAllocs()) Fail("C18:leak", "%s", LiveLibAllocSummary().c_str());
}
SIM_SCENARIO("C18", C18);
}  // namespace
}  // namespace sim
