// The inspection programs (webm_info, mkvparser_sample) against a model of what
// they must print, and all programs on damaged files and failing disks.
#include <algorithm>

#include "pdoc.h"
#include "simfs.h"
#include "tools.h"

namespace sim {
namespace {
typedef unsigned long long ull;
typedef long long ll;

void PutId(Bytes* o, uint32_t id) { for (int i = id > 0xffffff ? 3 : id > 0xffff ? 2 : id > 0xff ? 1 : 0; i >= 0; --i) o->push_back((uint8_t)(id >> (8 * i))); }
void PutVint(Bytes* o, uint64_t v, int len) { uint64_t x = v | (1ULL << (7 * len)); for (int i = len - 1; i >= 0; --i) o->push_back((uint8_t)(x >> (8 * i))); }
int VintLen(uint64_t v) { int n = 1; while (v >= (1ULL << (7 * n)) - 1) ++n; return n; }
void PutEl(Bytes* o, uint32_t id, const Bytes& b) { PutId(o, id); PutVint(o, b.size(), VintLen(b.size())); o->insert(o->end(), b.begin(), b.end()); }
void PutUInt(Bytes* o, uint32_t id, uint64_t v) { Bytes b; int n = 1; while (n < 8 && (v >> (8 * n))) ++n; for (int i = n - 1; i >= 0; --i) b.push_back((uint8_t)(v >> (8 * i))); PutEl(o, id, b); }
void PutStr(Bytes* o, uint32_t id, const char* s) { PutEl(o, id, Bytes(s, s + strlen(s))); }
void PutFloat(Bytes* o, uint32_t id, double d) { uint64_t u; memcpy(&u, &d, 8); Bytes b; for (int i = 7; i >= 0; --i) b.push_back((uint8_t)(u >> (8 * i))); PutEl(o, id, b); }
void Cat(Bytes* o, const Bytes& b) { o->insert(o->end(), b.begin(), b.end()); }

struct Bits {
  Bytes b; int n = 0;
  void Put(uint32_t v, int bits) {
    for (int i = bits - 1; i >= 0; --i) {
      if (n % 8 == 0) b.push_back(0);
      b.back() |= (uint8_t)(((v >> i) & 1) << (7 - n % 8));
      ++n;
    }
  }
  uint32_t Rnd(int bits, const char* w) { uint32_t v = (uint32_t)Draw(1u << bits, w); Put(v, bits); return v; }
};

// What webm_info remembers from frame to frame.
struct Vp9State {
  int rt = 0, ct = 0, fpm = 0, w = 0, h = 0, depth = 0; int altden = 3, bits = 16;
  int gap = 0, cw = 0, ch = 0, ratio = 0, since = 0;      // a stream that keeps to a level: frames between altrefs, picture size, compression (in eighths)
};
struct Vp9Ev { ll ns = 0; int key, altref, refresh, ct, depth; ll w, h; size_t size; };     // one frame as the statistics see it

Bytes DrawVp9Frame(Vp9State* st, std::string* want, std::vector<Vp9Ev>* evs) {
  Bits w;
  w.Put(2, 2);
  const int profile = (int)Draw(4, "v9.profile");
  w.Put(profile & 1, 1); w.Put(profile >> 1, 1);
  if (profile == 3) w.Put(0, 1);
  const bool existing = Chance(1, 12, "v9.existing");
  w.Put(existing, 1);
  int key = 0, altref = 0, errm = 0, cs = 0, refresh = 0, width = 0, height = 0, dw = 0, dh = 0;
  auto colour = [&] {
    st->depth = 8;
    if (profile >= 2) st->depth = w.Rnd(1, "v9.depth") ? 12 : 10;
    cs = (int)w.Rnd(3, "v9.cs");
    if (cs != 7) { w.Rnd(1, "v9.range"); if (profile & 1) { w.Rnd(2, "v9.sub"); w.Put(0, 1); } }
    else if (profile & 1) w.Put(0, 1);
  };
  auto resolution = [&] {
    const bool usual = st->gap && Chance(15, 16, "v9.usual");
    auto dim = [&](const char* n) { if (usual) { const int u = n[3] == 'w' ? st->cw : st->ch; w.Put((uint32_t)u - 1, 16); return u; } const uint32_t v = (uint32_t)Draw(1u << st->bits, n); w.Put(v, 16); return (int)v + 1; };
    width = dim("v9.w"); height = dim("v9.h"); st->w = width; st->h = height;
    if (Chance(1, 2, "v9.scaled")) { w.Put(1, 1); dw = 1 + (int)w.Rnd(16, "v9.dw"); dh = 1 + (int)w.Rnd(16, "v9.dh"); }
    else { w.Put(0, 1); dw = width; dh = height; }
  };
  if (!existing) {
    key = Chance(1, 2, "v9.key"); w.Put(!key, 1);
    altref = st->since < st->gap ? 0 : Chance(1, (uint32_t)st->altden, "v9.altref"); w.Put(!altref, 1);
    errm = Chance(1, 3, "v9.errm"); w.Put((uint32_t)errm, 1);
    if (key) {
      w.Put(0x498342, 24);
      colour(); resolution();
      if (!errm) { w.Rnd(1, "v9.ctx"); st->fpm = (int)w.Rnd(1, "v9.fpm"); } else st->fpm = 1;
      w.Rnd(2, "v9.fc"); w.Rnd(6, "v9.lf"); w.Rnd(3, "v9.sh");
      if (Chance(1, 2, "v9.mrd")) {
        w.Put(1, 1);
        if (Chance(1, 2, "v9.mru")) { w.Put(1, 1); for (int i = 0; i < 6; ++i) if (Chance(1, 3, "v9.d")) { w.Put(1, 1); w.Rnd(7, "v9.dv"); } else w.Put(0, 1); }
        else w.Put(0, 1);
      } else w.Put(0, 1);
      w.Rnd(8, "v9.q");
      for (int i = 0; i < 3; ++i) if (Chance(1, 3, "v9.dq")) { w.Put(1, 1); w.Rnd(4, "v9.dqv"); } else w.Put(0, 1);
      const bool seg = Chance(1, 4, "v9.seg");
      w.Put(seg, 1);
      if (!seg) {
        const int sb = (((width + 7) / 8) + 7) / 8;
        int mn = 0, mx = 0;
        while ((64 << mn) < sb) ++mn;
        while ((sb >> (mx + 1)) >= 4) ++mx;
        int lc = mn;
        for (int ones = mx - mn; ones > 0; --ones) { if (Chance(1, 2, "v9.tc")) { w.Put(1, 1); ++lc; } else { w.Put(0, 1); break; } }
        int lr = (int)w.Rnd(1, "v9.tr");
        if (lr) lr += (int)w.Rnd(1, "v9.tr2");
        st->rt = 1 << lr; st->ct = 1 << lc;
      }
    } else {
      int intra = 0;
      if (altref) { intra = Chance(1, 2, "v9.intra"); w.Put((uint32_t)intra, 1); }
      if (!errm) w.Rnd(2, "v9.reset");
      if (intra) { w.Put(0x498342, 24); if (profile > 0) colour(); else st->depth = 8; refresh = (int)w.Rnd(8, "v9.refresh"); resolution(); }
      else {
        refresh = (int)w.Rnd(8, "v9.refresh");
        for (int i = 0; i < 3; ++i) w.Rnd(4, "v9.ref");
        bool found = false;
        for (int i = 0; i < 3 && !found; ++i) { found = Chance(1, 2, "v9.found"); w.Put(found, 1); }
        if (!found) resolution();
      }
    }
  }
  Bytes f = w.b;
  const bool bare = !key && Chance(1, 6, "v9.bare");
  st->since = altref ? 0 : st->since + 1;
  if (!bare) {
    size_t len = Magnitude(40, "v9.len");
    if (st->ratio) len += (size_t)std::min<ll>(40000, (ll)st->w * st->h * st->depth / 8 * 12 / st->ratio);
    else if (Chance(1, 12, "v9.long")) len += 200 + Draw(400, "v9.longv");
    else if (Chance(1, 250, "v9.huge")) len += 65480 + Draw(100, "v9.hugev");
    Cat(&f, MakePayload(Draw(1 << 12, "v9.seed"), len));
  }
  f.push_back(0);
  *want = Fmt(" key:%d v:%d altref:%d errm:%d rt:%d ct:%d fpm:%d", key, profile, altref, errm, st->rt, st->ct, st->fpm);
  if (key) { *want += Fmt(" cs:%d", cs); if (dw != width || dh != height) *want += Fmt(" dw:%d dh:%d", dw, dh); }
  Vp9Ev ev; ev.key = key; ev.altref = altref; ev.refresh = refresh; ev.ct = st->ct; ev.depth = st->depth; ev.w = st->w; ev.h = st->h; ev.size = f.size();
  evs->push_back(ev);
  return f;
}
Bytes DrawVp9Packet(Vp9State* st, std::string* want, std::vector<Vp9Ev>* evs) {
  if (!Chance(1, 4, "v9.super")) return DrawVp9Frame(st, want, evs);
  const int n = (int)Range(1, 8, "v9.n");
  Bytes out; std::vector<size_t> sz;
  want->clear();
  size_t big = 0;
  for (int i = 0; i < n; ++i) {
    std::string w;
    Bytes f = DrawVp9Frame(st, &w, evs);
    sz.push_back(f.size()); big = std::max(big, f.size());
    *want += Fmt(" packed [%d]: {", i) + w + Fmt(" size: %zu }", f.size());
    Cat(&out, f);
  }
  int mag = (int)Range(big > 65535 ? 3 : big > 255 ? 2 : 1, 4, "v9.mag");
  const uint8_t marker = (uint8_t)(0xc0 | (mag - 1) << 3 | (n - 1));
  out.push_back(marker);
  for (size_t s : sz) for (int k = 0; k < mag; ++k) out.push_back((uint8_t)(s >> (8 * k)));
  out.push_back(marker);
  return out;
}
Bytes DrawText(const char* what) {
  static const char* piece[] = {"\n", "\n", "id", "line:5%", "align:start", "text", ":", " ", "\r", "\t"};
  std::string o;
  (void)what;
  for (int n = (int)Draw(12, "tx.n"); n > 0; --n) { if (Chance(1, 12, "tx.raw")) o += (char)Draw(256, "tx.c"); else o += piece[Draw(10, "tx.p")]; }
  return Bytes(o.begin(), o.end());
}
Bytes DrawChapters() {
  Bytes all;
  for (int n = (int)Range(1, 2, "ch.n"); n > 0; --n) {
    Bytes ed;
    for (int k = (int)Draw(4, "ch.a"); k > 0; --k) {
      Bytes at;
      if (Chance(3, 4, "ch.uid")) PutUInt(&at, 0x73C4, Draw(100, "ch.uidv"));
      if (Chance(1, 2, "ch.sid")) PutEl(&at, 0x5654, DrawText("sid"));
      if (Chance(3, 4, "ch.st")) PutUInt(&at, 0x91, Magnitude(1ULL << 62, "ch.stv"));
      if (Chance(3, 4, "ch.en")) PutUInt(&at, 0x92, Magnitude(1ULL << 62, "ch.env"));
      for (int q = (int)Draw(3, "ch.d"); q > 0; --q) {
        Bytes di;
        if (Chance(3, 4, "ch.str")) PutEl(&di, 0x85, DrawText("str"));
        if (Chance(1, 2, "ch.lang")) PutStr(&di, 0x437C, "eng");
        PutEl(&at, 0x80, di);
      }
      PutEl(&ed, 0xB6, at);
    }
    PutEl(&all, 0x45B9, ed);
  }
  Bytes o; PutEl(&o, 0x1043A770, all); return o;
}
Bytes DrawVp8Packet(std::string* want) {
  const int key = Chance(1, 2, "v8.key"), version = (int)Draw(8, "v8.version"), altref = Chance(1, 3, "v8.altref"), part = (int)Draw(1 << 19, "v8.part");
  const uint32_t b = (uint32_t)(!key) | (uint32_t)version << 1 | (uint32_t)(!altref) << 4 | (uint32_t)part << 5;
  Bytes f = {(uint8_t)b, (uint8_t)(b >> 8), (uint8_t)(b >> 16)};
  if (key) { f.push_back(0x9d); f.push_back(0x01); f.push_back(0x2a); }
  Cat(&f, MakePayload(Draw(1 << 12, "v8.seed"), Magnitude(40, "v8.len")));
  *want = Fmt(" key:%d v:%d altref:%d partition_length:%d", key, version, altref, part);
  return f;
}

struct VTrack { int number, type, codec; bool enc; std::string id; std::vector<std::string> info, sample; uint64_t pos = 0, size = 0; };   // codec 0 VP8 1 VP9 2 other 3 text
struct VFrm { Bytes fr; std::string enc, info; std::vector<Vp9Ev> ev; bool read = true; uint64_t pos = 0; };
struct VBlk { int track; bool key, group, foreign = false; ll tc; ll discard; uint64_t pos = 0, size = 0; std::vector<VFrm> frames; };
struct VClu { uint64_t tc, pos = 0, size = 0; std::vector<VBlk> blocks; };
struct VCue { uint64_t time; struct P { int track; uint64_t pos, block; }; std::vector<P> at; };
struct VSpan { uint64_t pos = 0, size = 0; };
struct VSeek : VSpan { uint64_t id = 0, at = 0; };
struct VDoc {
  Bytes b; uint64_t scale = 1000000; double duration = -1; uint64_t seg_pos = 0, seg_size = 0, payload = 0;
  int ebml_version = 1, doc_version = 4, doc_read = 2; std::string doctype = "webm", title, muxing, writing;
  bool has_seek = false; VSpan seek, info_at, tracks_at, cues_at; std::vector<VSeek> seeks; std::vector<VSpan> voids;
  std::vector<std::vector<std::pair<std::string, std::string>>> tags; bool has_tags = false;
  std::vector<VTrack> tracks; std::vector<VClu> clusters; std::vector<VCue> cues; bool cues_front = false; int vp9 = 0; bool priv_conflict = false, foreign = false;
};
std::string Word(const char* what) { std::string o; for (uint64_t n = 1 + Draw(9, what); n > 0; --n) o += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-"[Draw(65, what)]; return o; }
void PutVoid(Bytes* o) { PutEl(o, 0xEC, Bytes(Magnitude(30, "void"))); }
void PutSInt(Bytes* o, uint32_t id, ll v) {
  int n = 1;
  while (n < 8 && (v < -(1LL << (8 * n - 1)) || v >= 1LL << (8 * n - 1))) ++n;
  if (Chance(1, 4, "si.wide")) n = 8;
  Bytes b; for (int i = n - 1; i >= 0; --i) b.push_back((uint8_t)((uint64_t)v >> (8 * i))); PutEl(o, id, b);
}
void PutF32(Bytes* o, uint32_t id, float d) { uint32_t u; memcpy(&u, &d, 4); Bytes b; for (int i = 3; i >= 0; --i) b.push_back((uint8_t)(u >> (8 * i))); PutEl(o, id, b); }
// A number that is exact in single precision, in either width.
double DrawF(Bytes* o, uint32_t id, int den, int max, const char* what) {
  const double v = (double)Draw((uint64_t)max * (uint64_t)den + 1, what) / den;
  if (Chance(1, 2, "f.wide")) PutFloat(o, id, v); else PutF32(o, id, (float)v);
  return v;
}

Bytes DrawVideo(VTrack* t) {
  auto I = [&](const char* n, ll v) { t->info.push_back(Fmt("%s: %lld", n, v)); };
  auto S = [&](const char* n, ll v) { t->sample.push_back(Fmt("%s: %lld", n, v)); };
  Bytes v;
  const ll w = 1 + (ll)Magnitude(4000, "vd.w"), h = 1 + (ll)Magnitude(4000, "vd.h");
  PutUInt(&v, 0xB0, (uint64_t)w); PutUInt(&v, 0xBA, (uint64_t)h);
  I("PixelWidth  ", w); I("PixelHeight ", h); S("Video Width\t\t", w); S("Video Height\t\t", h);
  double rate = 0;
  if (Chance(1, 3, "vd.rate")) { rate = (double)(1 + (Chance(1, 6, "vd.rateh") ? Magnitude(8000000, "vd.ratev") : Draw(960, "vd.ratev"))) / 8; if (Chance(1, 2, "f.wide")) PutFloat(&v, 0x2383E3, rate); else PutF32(&v, 0x2383E3, (float)rate); }
  if (rate > 0) t->info.push_back(Fmt("FrameRate   : %g", rate));
  t->sample.push_back(Fmt("Video Rate\t\t: %f", rate));
  ll dw = 0, dh = 0, du = 0;
  const int dm = (int)Draw(4, "vd.dm");
  if (dm == 1) { dw = w; dh = h; } else if (dm == 2) { dw = 1 + (ll)Magnitude(4000, "vd.dw"); dh = 1 + (ll)Magnitude(4000, "vd.dh"); } else if (dm == 3) { dw = 1 + (ll)Magnitude(4000, "vd.dw"); dh = h; }
  if (dw) { PutUInt(&v, 0x54B0, (uint64_t)dw); PutUInt(&v, 0x54BA, (uint64_t)dh); if (Chance(1, 3, "vd.du")) { du = (ll)Draw(5, "vd.duv"); PutUInt(&v, 0x54B2, (uint64_t)du); } }
  if (du > 0 || (dw && (dw != w || dh != h))) { I("DisplayWidth  ", dw); I("DisplayHeight ", dh); I("DisplayUnit   ", du); }
  else if (!dw) t->info.push_back("?Display");      // how an absent display size is shown is not judged
  if (Chance(1, 4, "vd.colour")) {
    Bytes c;
    t->info.push_back("Colour:"); t->sample.push_back("Video Colour:");
    static const struct { uint32_t id; const char* i; const char* s; } f[] = {
        {0x55B1, "MatrixCoefficients      ", "MatrixCoefficients"}, {0x55B2, "BitsPerChannel          ", "BitsPerChannel"}, {0x55B3, "ChromaSubsamplingHorz   ", "ChromaSubsamplingHorz"},
        {0x55B4, "ChromaSubsamplingVert   ", "ChromaSubsamplingVert"}, {0x55B5, "CbSubsamplingHorz       ", "CbSubsamplingHorz"}, {0x55B6, "CbSubsamplingVert       ", "CbSubsamplingVert"},
        {0x55B7, "ChromaSitingHorz        ", "ChromaSitingHorz"}, {0x55B8, "ChromaSitingVert        ", "ChromaSitingVert"}, {0x55B9, "Range                   ", "Range"},
        {0x55BA, "TransferCharacteristics ", "TransferCharacteristics"}, {0x55BB, "Primaries               ", "Primaries"}, {0x55BC, "MaxCLL                  ", "MaxCLL"}, {0x55BD, "MaxFALL                 ", "MaxFALL"}};
    for (auto& e : f) if (Chance(1, 2, "vd.cf")) { const ll x = (ll)Magnitude(40, "vd.cv"); PutUInt(&c, e.id, (uint64_t)x); I(e.i, x); S(e.s, x); }
    if (Chance(1, 2, "vd.mm")) {
      Bytes m;
      t->info.push_back("MasteringMetadata:"); t->sample.push_back("Mastering Metadata:");
      struct C { double x, y; bool on; } ch[4];
      static const uint32_t id[4] = {0x55D1, 0x55D3, 0x55D5, 0x55D7};
      for (int i = 0; i < 4; ++i) if ((ch[i].on = Chance(2, 3, "vd.ch"))) { ch[i].x = DrawF(&m, id[i], 4096, 1, "vd.chx"); ch[i].y = DrawF(&m, id[i] + 1, 4096, 1, "vd.chy"); }
      double mx = 0, mn = 0; const bool hx = Chance(1, 2, "vd.lx"), hn = Chance(1, 2, "vd.ln");
      if (hx) mx = DrawF(&m, 0x55D9, 64, 9000, "vd.lxv");
      if (hn) mn = DrawF(&m, 0x55DA, 64, 900, "vd.lnv");
      static const char* nm[4] = {"PrimaryRChromaticity", "PrimaryGChromaticity", "PrimaryBChromaticity", "WhitePointChromaticity"};
      if (hx) t->sample.push_back(Fmt("LuminanceMax: %f", mx));
      if (hn) t->sample.push_back(Fmt("LuminanceMin: %f", mn));
      for (int i = 0; i < 4; ++i) if (ch[i].on) {
        const char* pad = i == 3 ? "" : "  ";
        t->info.push_back(Fmt("%sX %s: %g", nm[i], pad, ch[i].x)); t->info.push_back(Fmt("%sY %s: %g", nm[i], pad, ch[i].y));
        t->sample.push_back(Fmt("%sX: %f", nm[i], ch[i].x)); t->sample.push_back(Fmt("%sY: %f", nm[i], ch[i].y));
      }
      if (hx) t->info.push_back(Fmt("LuminanceMax            : %g", mx));
      if (hn) t->info.push_back(Fmt("LuminanceMin            : %g", mn));
      PutEl(&c, 0x55D0, m);
    }
    PutEl(&v, 0x55B0, c);
  }
  if (Chance(1, 4, "vd.proj")) {
    Bytes p;
    t->info.push_back("Projection:"); t->sample.push_back("Video Projection:");
    if (Chance(2, 3, "vd.pt")) { const ll x = Chance(1, 8, "vd.ptu") ? 4 + (ll)Magnitude(1000000, "vd.ptx") : (ll)Draw(4, "vd.ptv"); PutUInt(&p, 0x7671, (uint64_t)x); I("ProjectionType            ", x); S("ProjectionType", x); }
    if (Chance(1, 2, "vd.ppr")) { const ll n = 1 + (ll)Magnitude(40, "vd.pprn"); PutEl(&p, 0x7672, MakePayload(3, (size_t)n)); I("ProjectionPrivate(size)   ", n); t->sample.push_back(Fmt("ProjectionPrivate: %lld bytes", n)); }
    static const struct { uint32_t id; const char* i; const char* s; } f[] = {{0x7673, "ProjectionPoseYaw         ", "ProjectionPoseYaw"}, {0x7674, "ProjectionPosePitch       ", "ProjectionPosePitch"}, {0x7675, "ProjectionPoseRoll         ", "ProjectionPoseRoll"}};
    for (auto& e : f) if (Chance(1, 2, "vd.pose")) { const double x = DrawF(&p, e.id, 64, 180, "vd.posev"); t->info.push_back(Fmt("%s: %g", e.i, x)); t->sample.push_back(Fmt("%s: %f", e.s, x)); }
    PutEl(&v, 0x7670, p);
  }
  return v;
}
Bytes DrawAudio(VTrack* t, ll delay, ll preroll) {
  Bytes v;
  const ll ch = Chance(1, 6, "vd.ch1") ? 1 : (ll)Range(1, 8, "vd.ch");
  if (ch > 1 || Chance(1, 2, "vd.chx")) PutUInt(&v, 0x9F, (uint64_t)ch);
  double rate = 8000; ll depth = 0;
  if (Chance(5, 6, "vd.sr")) { static const double r[] = {48000, 44100, 22050, 11025.5, 96000, 1}; rate = r[Draw(6, "vd.srv")]; PutFloat(&v, 0xB5, rate); }
  if (Chance(1, 2, "vd.bd")) { depth = 1 + (ll)Magnitude(64, "vd.bdv"); PutUInt(&v, 0x6264, (uint64_t)depth); }
  t->info.push_back(Fmt("Channels         : %lld", ch));
  if (depth) t->info.push_back(Fmt("BitDepth         : %lld", depth));
  t->info.push_back(Fmt("SamplingFrequency: %g", rate));
  if (delay) t->info.push_back(Fmt("CodecDelay       : %lld", delay));
  if (preroll) t->info.push_back(Fmt("SeekPreRoll      : %lld", preroll));
  t->sample.push_back(Fmt("Audio Channels\t\t: %lld", ch)); t->sample.push_back(Fmt("Audio BitDepth\t\t: %lld", depth)); t->sample.push_back(Fmt("Addio Sample Rate\t: %.3f", rate));
  t->sample.push_back(Fmt("Audio Codec Delay\t\t: %lld", delay)); t->sample.push_back(Fmt("Audio Seek Pre Roll\t\t: %lld", preroll));
  return v;
}

VFrm DrawFrame(const VTrack& t, Vp9State* st, bool wild) {
  VFrm f;
  std::string want; Bytes raw;
  const Vp9State before = *st;
  if (t.codec == 0) raw = DrawVp8Packet(&want);
  else if (t.codec == 1) raw = DrawVp9Packet(st, &want, &f.ev);
  else if (t.codec == 3) { raw = DrawText("block"); if (raw.empty() && !wild) raw.push_back('x'); }
  else raw = MakePayload(Draw(1 << 12, "vd.seed"), 1 + Magnitude(60, "vd.len"));
  if (wild) {           // packets that are cut, empty or end with a superframe mark
    if (Chance(1, 3, "vd.wcut")) raw.resize(Draw(raw.size() + 1, "vd.wlen"));
    if (Chance(1, 3, "vd.wmut") && !raw.empty()) raw[Draw(raw.size(), "vd.wat")] = (uint8_t)Draw(256, "vd.wb");
    if (Chance(1, 4, "vd.wmark")) raw.push_back((uint8_t)(0xc0 | Draw(32, "vd.wm")));
    if (Chance(1, 8, "vd.wsize")) { uint8_t mk = (uint8_t)(0xd8 | Draw(8, "vd.wn")); raw.push_back(mk); for (int q = 0; q < 4 * ((mk & 7) + 1); ++q) raw.push_back((uint8_t)(Chance(1, 3, "vd.wz") ? Draw(256, "vd.wv") : 0)); raw.push_back(mk); }
  }
  f.info = want;
  if (!t.enc) { f.fr = raw; }
  else {
    const int mode = (int)Draw(3, "vd.sig");
    if (mode == 0) { const int sub = Chance(1, 4, "vd.sub"); f.fr.push_back((uint8_t)(sub << 1)); f.enc = Fmt(" enc: 0 sub: %d", sub); }
    else {
      f.info.clear();
      if (mode == 1) { *st = before; f.read = false; }        // its header is not readable
      f.fr.push_back((uint8_t)(mode == 2 ? 3 : 1));
      uint64_t iv = 0;
      for (int q = 0; q < 8; ++q) { uint8_t x = (uint8_t)Draw(256, "vd.iv"); f.fr.push_back(x); iv |= (uint64_t)x << (8 * q); }
      f.enc = Fmt(" enc: 1 sub: %d iv: %llx", mode == 2, (ull)iv);
      if (mode == 2) {
        int np = Chance(1, 60, "vd.npx") ? (int)Draw(256, "vd.npv") : (int)Draw(4, "vd.np");
        f.fr.push_back((uint8_t)np);
        for (int q = 0; q < np; ++q) { uint32_t off = Chance(1, 16, "vd.offx") ? 0xffffffffu - (uint32_t)Draw(1 << 16, "vd.offv") : (uint32_t)Draw(100000, "vd.off"); for (int s = 24; s >= 0; s -= 8) f.fr.push_back((uint8_t)(off >> s)); f.info += Fmt(" off[%d]:%u", q, off); }
        f.info += want;
      }
    }
    Cat(&f.fr, raw);
  }
  if (wild && Chance(1, 3, "vd.wfr")) f.fr.resize(Draw(std::min<size_t>(f.fr.size(), 14) + 1, "vd.wfl"));
  return f;
}

VDoc DrawVDoc(bool wild) {
  VDoc d;
  Bytes hdr;
  d.ebml_version = 1 + (int)Draw(3, "vd.ev"); d.doc_version = 2 + (int)Draw(4, "vd.dv"); d.doc_read = 1 + (int)Draw(2, "vd.dr");
  if (Chance(1, 4, "vd.mkv")) d.doctype = "matroska";
  PutUInt(&hdr, 0x4286, (uint64_t)d.ebml_version); PutUInt(&hdr, 0x42F7, 1); PutUInt(&hdr, 0x42F2, 4); PutUInt(&hdr, 0x42F3, 8);
  PutStr(&hdr, 0x4282, d.doctype.c_str()); PutUInt(&hdr, 0x4287, (uint64_t)d.doc_version); PutUInt(&hdr, 0x4285, (uint64_t)d.doc_read);
  PutEl(&d.b, 0x1A45DFA3, hdr);
  if (Chance(1, 3, "vd.scale")) d.scale = 1 + Magnitude(5000000, "vd.scalev");
  Bytes info;
  PutUInt(&info, 0x2AD7B1, d.scale);
  if (Chance(5, 6, "vd.mux")) { d.muxing = Word("vd.muxv"); PutStr(&info, 0x4D80, d.muxing.c_str()); }
  if (Chance(5, 6, "vd.wri")) { d.writing = Word("vd.wriv"); PutStr(&info, 0x5741, d.writing.c_str()); }
  if (Chance(1, 3, "vd.tit")) { d.title = Word("vd.titv"); PutStr(&info, 0x7BA9, d.title.c_str()); }
  if (Chance(2, 3, "vd.dur")) { d.duration = (double)Magnitude(1000000, "vd.durv"); PutFloat(&info, 0x4489, d.duration); }
  Bytes tracks;
  int nt = (int)Range(1, 3, "vd.nt"), num = 0;
  const bool one9 = Chance(1, 3, "vd.one9");       // exactly one VP9 track: its statistics are judged
  for (int i = 0; i < nt; ++i) {
    VTrack t;
    num += 1 + (int)Magnitude(30, "vd.num"); t.number = num;
    t.type = i == 0 || Chance(1, 2, "vd.video") ? 1 : 2;
    t.codec = t.type == 1 ? (one9 ? (i == 0 ? 1 : 2 * (int)Draw(2, "vd.codec")) : (int)Draw(3, "vd.codec")) : 2;
    t.id = t.type == 2 ? "A_OPUS" : t.codec == 0 ? "V_VP8" : t.codec == 1 ? "V_VP9" : "V_AV1";
    if (!(one9 && i == 0) && Chance(1, wild ? 4 : 10, "vd.text")) {
      t.type = Chance(1, 2, "vd.ttype") ? 17 : 33; t.codec = 3;
      static const char* ids[] = {"D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "D_WEBVTT/DESCRIPTIONS", "D_WEBVTT/METADATA", "S_TEXT/UTF8"};
      t.id = ids[Draw(5, "vd.tid")];
    }
    t.enc = Chance(1, one9 ? 8 : 3, "vd.enc") && (wild || t.codec != 3);
    if (t.codec == 1) ++d.vp9;
    Bytes e;
    std::string name, cname; ll defdur = 0, delay = 0, preroll = 0;
    if (Chance(1, 3, "vd.name")) { name = Word("vd.namev"); PutStr(&e, 0x536E, name.c_str()); }
    if (Chance(1, 4, "vd.cname")) { cname = Word("vd.cnamev"); PutStr(&e, 0x258688, cname.c_str()); }
    if (Chance(1, 4, "vd.defdur")) { defdur = (ll)Magnitude(1ULL << 40, "vd.defdurv"); PutUInt(&e, 0x23E383, (uint64_t)defdur); }
    if (t.type == 2 && Chance(1, 3, "vd.delay")) { delay = (ll)Magnitude(1ULL << 30, "vd.delayv"); PutUInt(&e, 0x56AA, (uint64_t)delay); }
    if (t.type == 2 && Chance(1, 3, "vd.preroll")) { preroll = (ll)Magnitude(1ULL << 30, "vd.prerollv"); PutUInt(&e, 0x56BB, (uint64_t)preroll); }
    auto I = [&](const char* n, ll v) { t.info.push_back(Fmt("%s: %lld", n, v)); };
    I("TrackType   ", t.type); I("TrackNumber ", t.number);
    if (!name.empty()) t.info.push_back("Name        : " + name);
    t.info.push_back("CodecID     : " + t.id);
    if (!cname.empty()) t.info.push_back("CodecName   : " + cname);
    t.sample.push_back(Fmt("Track Type\t\t: %d", t.type)); t.sample.push_back(Fmt("Track Number\t\t: %d", t.number)); t.sample.push_back(Fmt("Track Uid\t\t: %d", t.number + 700));
    t.sample.push_back("Track Name\t\t: " + (name.empty() ? "NULL" : name)); t.sample.push_back("Codec Id\t\t: " + t.id);
    PutUInt(&e, 0xD7, (uint64_t)t.number); PutUInt(&e, 0x73C5, (uint64_t)t.number + 700); PutUInt(&e, 0x83, (uint64_t)t.type); PutStr(&e, 0x86, t.id.c_str());
    if (t.codec == 1 && Chance(1, 2, "vd.priv")) {
      Bytes p; static const uint8_t lv[] = {10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62}; static const uint8_t bd[] = {8, 10, 12};
      std::vector<std::string> feat;
      auto F = [&](int id, int v, const char* n) { Cat(&p, {(uint8_t)id, 1, (uint8_t)v}); feat.push_back(Fmt("%s: %d", n, v)); };
      if (Chance(1, 2, "vd.p1")) F(1, (int)Draw(4, "vd.pp"), "VP9 profile            ");
      if (Chance(1, 2, "vd.p2")) F(2, lv[Draw(14, "vd.pl")], "VP9 level              ");
      if (Chance(1, 2, "vd.p3")) F(3, bd[Draw(3, "vd.pb")], "VP9 bit_depth          ");
      if (p.empty() || Chance(1, 2, "vd.p4")) F(4, (int)Draw(4, "vd.pc"), "VP9 chroma subsampling ");
      if (Chance(1, 6, "vd.pr")) {   // a feature said again, or said differently
        const size_t n = p.size() / 3, i = (size_t)Draw(n, "vd.pri");
        const uint8_t id = p[3 * i]; uint8_t v = p[3 * i + 2];
        if (Chance(1, 3, "vd.prc")) {
          const uint8_t was = v;
          v = id == 2 ? lv[Draw(14, "vd.prl")] : id == 3 ? bd[Draw(3, "vd.prb")] : (uint8_t)Draw(4, "vd.prv");
          if (v != was) d.priv_conflict = true;
        }
        Cat(&p, {id, 1, v});
      }
      I("PrivateData(size)", (ll)p.size());
      t.info.insert(t.info.end(), feat.begin(), feat.end());
      if (wild && Chance(1, 2, "vd.pwild")) p = MakePayload(Draw(64, "vd.pws"), Magnitude(8, "vd.pwl"));
      PutEl(&e, 0x63A2, p);
      t.sample.push_back(Fmt("Codec private length: %zu bytes", p.size()));
    } else if (t.codec != 1 && Chance(1, 3, "vd.priv2")) {
      const size_t n = 1 + Magnitude(300, "vd.priv2n");
      PutEl(&e, 0x63A2, MakePayload(9, n));
      I("PrivateData(size)", (ll)n); t.sample.push_back(Fmt("Codec private length: %zu bytes", n));
    }
    t.sample.push_back("Codec Name\t\t: " + (cname.empty() ? "NULL" : cname));
    if (defdur) t.info.push_back(Fmt("DefaultDuration: %lld", defdur));
    if (t.enc) {
      Bytes aes, en, ce, ces;
      PutUInt(&aes, 0x47E8, 1);
      const ll order = (ll)Draw(5, "vd.order"), scope = 1 + (ll)Draw(7, "vd.scope");
      I("ContentEncodingOrder ", order); I("ContentEncodingScope ", scope); I("ContentEncodingType  ", 1);
      PutUInt(&en, 0x47E1, 5);
      t.info.push_back("ContentEncAlgo       : 5");
      if (Chance(5, 6, "vd.haskid")) { Bytes k = MakePayload(Draw(1 << 12, "vd.kids"), 1 + Magnitude(16, "vd.kid")); PutEl(&en, 0x47E2, k); std::string l = "ContentEncKeyID      :"; for (uint8_t x : k) l += Fmt(" 0x%02x,", x); t.info.push_back(l); }
      auto hex = [&](uint32_t id, const char* n) { Bytes k = MakePayload(Draw(1 << 12, "vd.sgs"), 1 + Magnitude(16, "vd.sgn")); std::string l = n; for (uint8_t& x : k) { x |= 0x10; l += Fmt("%x", x); } PutEl(&en, id, k); t.info.push_back(l); };
      if (Chance(1, 4, "vd.sgn1")) hex(0x47E3, "ContentSignature     : 0x");
      if (Chance(1, 4, "vd.sgn2")) hex(0x47E4, "ContentSigKeyID      : 0x");
      ll sa = 0, sh = 0;
      if (Chance(1, 4, "vd.sa")) { sa = (ll)Draw(3, "vd.sav"); PutUInt(&en, 0x47E5, (uint64_t)sa); }
      if (Chance(1, 4, "vd.sh")) { sh = (ll)Draw(3, "vd.shv"); PutUInt(&en, 0x47E6, (uint64_t)sh); }
      I("ContentSigAlgo       ", sa); I("ContentSigHashAlgo   ", sh); I("CipherMode           ", 1);
      PutEl(&en, 0x47E7, aes);
      PutUInt(&ce, 0x5031, (uint64_t)order); PutUInt(&ce, 0x5032, (uint64_t)scope); PutUInt(&ce, 0x5033, 1); PutEl(&ce, 0x5035, en);
      PutEl(&ces, 0x6240, ce); PutEl(&e, 0x6D80, ces);
    }
    if (t.type == 1) PutEl(&e, 0xE0, DrawVideo(&t)); else if (t.type == 2) PutEl(&e, 0xE1, DrawAudio(&t, delay, preroll));
    if (Chance(1, 10, "vd.tvoid")) PutVoid(&tracks);
    t.pos = tracks.size();
    PutEl(&tracks, 0xAE, e);
    t.size = tracks.size() - t.pos;
    d.tracks.push_back(t);
  }
  // clusters
  Vp9State st;
  st.altden = (int)Range(2, 8, "vd.altden"); st.bits = (int)Range(6, 16, "vd.bits");
  const bool calm = d.vp9 && Chance(1, 2, "vd.calm"), fast = calm && Chance(1, 2, "vd.fast");
  if (calm) {
    static const int gaps[] = {3, 4, 4, 4, 5, 5, 6, 9, 10};
    st.gap = gaps[Draw(9, "vd.gapv")]; st.altden = 3;
    st.cw = 8 + (int)Magnitude(Chance(1, 2, "vd.cwb") ? 1000 : 9000, "vd.cw"); st.ch = 8 + (int)Magnitude(Chance(1, 2, "vd.chb") ? 600 : 5000, "vd.ch");
    if (Chance(1, 2, "vd.ratio")) st.ratio = (int)Range(16, 96, "vd.ratiov");
  }
  uint64_t tc = Magnitude(100000, "vd.tc0");
  const bool many = Chance(1, 10, "vd.many"), foreign = Chance(1, 20, "vd.foreign");
  int nc = many ? (int)Range(5, 24, "vd.nc") : (int)Range(1, 4, "vd.nc");
  std::vector<Bytes> bodies;
  for (int c = 0; c < nc; ++c) {
    VClu k; k.tc = tc;
    Bytes body;
    PutUInt(&body, 0xE7, tc);
    int nb = calm ? (int)Range(4, 14, "vd.nbc") : (int)Range(1, many ? 2 : 6, "vd.nb"), rel = 0;
    for (int i = 0; i < nb; ++i) {
      VBlk b;
      b.track = (int)Draw((uint64_t)nt, "vd.bt");
      const VTrack& t = d.tracks[(size_t)b.track];
      b.foreign = foreign && Chance(1, 4, "vd.fb"); d.foreign |= b.foreign;
      b.group = Chance(1, 4, "vd.group"); b.key = Chance(1, 2, "vd.key"); b.tc = (ll)tc + rel; b.discard = 0;
      const int nf = Chance(1, 6, "vd.lace") ? (int)Range(2, 5, "vd.lacen") : 1;
      for (int q = 0; q < nf; ++q) b.frames.push_back(DrawFrame(t, &st, wild));
      int lacing = nf == 1 ? 0 : (int)Range(1, 3, "vd.lacing");
      if (lacing == 2) {
        bool same = true;
        for (auto& f : b.frames) same &= f.fr.size() == b.frames[0].fr.size();
        if (!same && t.codec == 1) lacing = 1;        // copies would not leave the VP9 reader as it is
        else if (!same) { const VFrm f0 = b.frames[0]; for (auto& f : b.frames) f = f0; }
      }
      Bytes blk;
      const uint64_t wnum = b.foreign ? 120 : (uint64_t)t.number;
      const int tl = VintLen(wnum);
      PutVint(&blk, wnum, tl); blk.push_back((uint8_t)(rel >> 8)); blk.push_back((uint8_t)rel);
      const int lc = b.frames.size() == 1 ? 0 : lacing;
      blk.push_back((uint8_t)((!b.group && b.key ? 0x80 : 0) | lc << 1));
      if (lc) {
        blk.push_back((uint8_t)(b.frames.size() - 1));
        for (size_t q = 0; q + 1 < b.frames.size() && lc != 2; ++q) {
          const size_t n = b.frames[q].fr.size();
          if (lc == 1) { for (size_t z = 0; z < n / 255; ++z) blk.push_back(255); blk.push_back((uint8_t)(n % 255)); }
          else if (q == 0) PutVint(&blk, n, VintLen(n));
          else { const ll df = (ll)n - (ll)b.frames[q - 1].fr.size(); int L = 1; while (df < -((1LL << (7 * L - 1)) - 1) || df > (1LL << (7 * L - 1)) - 1) ++L; PutVint(&blk, (uint64_t)(df + ((1LL << (7 * L - 1)) - 1)), L); }
        }
      }
      for (auto& f : b.frames) { f.pos = blk.size(); Cat(&blk, f.fr); }
      b.size = blk.size();
      if (b.group) {
        Bytes g; PutEl(&g, 0xA1, blk);
        const size_t off = g.size() - blk.size();
        if (!b.key) PutUInt(&g, 0xFB, 0xff);      // -1
        if (Chance(1, 3, "vd.discard")) { b.discard = 1 + (ll)Magnitude(1ULL << 40, "vd.dp"); if (Chance(1, 3, "vd.dneg")) b.discard = -b.discard; PutSInt(&g, 0x75A2, b.discard); }
        PutEl(&body, 0xA0, g);
        b.pos = body.size() - g.size() + off;
      } else { PutEl(&body, 0xA3, blk); b.pos = body.size() - blk.size(); }
      for (auto& f : b.frames) f.pos += b.pos;
      k.blocks.push_back(b);
      if (Chance(3, 4, "vd.adv")) rel += 1 + (int)Magnitude(fast ? 30 : 2000, "vd.dt");
      rel = std::min(rel, 30000);
      if (Chance(1, 10, "vd.bvoid")) PutVoid(&body);
    }
    tc += (uint64_t)rel + 1 + Magnitude(fast ? 20 : 1000, "vd.gap");
    bodies.push_back(body);
    d.clusters.push_back(k);
  }
  // cues: positions are fixed width so that they can be placed in front
  const bool cues = Chance(2, 3, "vd.cues");
  d.cues_front = cues && Chance(1, 2, "vd.front");
  std::vector<VCue> cl;
  if (cues) for (size_t c = 0; c < d.clusters.size(); ++c) {
    if (Chance(1, 4, "vd.cueskip")) continue;
    VCue q; q.time = d.clusters[c].tc;
    for (auto& t : d.tracks) if (Chance(2, 3, "vd.cuetrack")) q.at.push_back({t.number, c, 1 + Draw(4, "vd.cueblock")});
    if (!q.at.empty()) cl.push_back(q);
  }
  auto fixed = [](Bytes* o, uint32_t id, uint64_t v) { Bytes b; for (int i = 3; i >= 0; --i) b.push_back((uint8_t)(v >> (8 * i))); PutEl(o, id, b); };
  auto cue_bytes = [&]() {
    Bytes cs;
    for (auto& q : cl) {
      Bytes p; PutUInt(&p, 0xB3, q.time);
      for (auto& a : q.at) { Bytes tp; PutUInt(&tp, 0xF7, (uint64_t)a.track); fixed(&tp, 0xF1, a.pos); PutUInt(&tp, 0x5378, a.block); PutEl(&p, 0xB7, tp); }
      PutEl(&cs, 0xBB, p);
    }
    Bytes o; PutEl(&o, 0x1C53BB6B, cs); return o;
  };
  Bytes seg;
  if ((d.has_seek = Chance(1, 2, "vd.seek"))) {
    Bytes sh;
    for (int n = (int)Draw(5, "vd.nseek"); n > 0; --n) {
      if (Chance(1, 6, "vd.svoid")) { VSpan v; v.pos = sh.size(); PutVoid(&sh); v.size = sh.size() - v.pos; d.voids.push_back(v); }
      VSeek e; e.pos = sh.size();
      static const uint32_t ids[] = {0x1549A966, 0x1654AE6B, 0x1C53BB6B, 0x1F43B675, 0x1254C367, 0x1043A770};
      e.id = ids[Draw(6, "vd.sid")]; e.at = Magnitude(1ULL << 50, "vd.sat");
      Bytes en, id; PutId(&id, (uint32_t)e.id); PutEl(&en, 0x53AB, id); PutUInt(&en, 0x53AC, e.at); PutEl(&sh, 0x4DBB, en);
      e.size = sh.size() - e.pos; d.seeks.push_back(e);
    }
    PutEl(&seg, 0x114D9B74, sh);
    d.seek.size = seg.size();
    const uint64_t h = seg.size() - sh.size();
    for (auto& e : d.seeks) e.pos += h;
    for (auto& e : d.voids) e.pos += h;
    if (Chance(1, 3, "vd.hvoid")) PutVoid(&seg);
  }
  auto level1 = [&](uint32_t id, const Bytes& b) { VSpan v; v.pos = seg.size(); PutEl(&seg, id, b); v.size = seg.size() - v.pos; return v; };
  const bool tracks_first = Chance(1, 6, "vd.order1");
  if (!tracks_first) d.info_at = level1(0x1549A966, info);
  d.tracks_at = level1(0x1654AE6B, tracks);
  for (auto& t : d.tracks) t.pos += seg.size() - tracks.size();
  if (tracks_first) d.info_at = level1(0x1549A966, info);
  if ((d.has_tags = Chance(1, 4, "vd.tags"))) {
    Bytes ts;
    for (int n = (int)Draw(3, "vd.ntag"); n > 0; --n) {
      Bytes tg; std::vector<std::pair<std::string, std::string>> l;
      for (int q = (int)Range(1, 3, "vd.nst"); q > 0; --q) { Bytes x; std::string a = Word("vd.tn"), c = Word("vd.tv"); PutStr(&x, 0x45A3, a.c_str()); PutStr(&x, 0x4487, c.c_str()); PutEl(&tg, 0x67C8, x); l.push_back({a, c}); }
      PutEl(&ts, 0x7373, tg); d.tags.push_back(l);
    }
    PutEl(&seg, 0x1254C367, ts);
  }
  if (wild && Chance(1, 3, "vd.chap")) Cat(&seg, DrawChapters());
  size_t at = seg.size() + (d.cues_front && !cl.empty() ? cue_bytes().size() : 0);
  std::vector<uint64_t> cpos;
  for (size_t c = 0; c < bodies.size(); ++c) { cpos.push_back(at); at += 4 + (size_t)VintLen(bodies[c].size()) + bodies[c].size(); }
  for (auto& q : cl) for (auto& a : q.at) a.pos = cpos[(size_t)a.pos];
  if (!cl.empty() && d.cues_front) { d.cues_at.pos = seg.size(); Cat(&seg, cue_bytes()); d.cues_at.size = seg.size() - d.cues_at.pos; }
  for (size_t c = 0; c < bodies.size(); ++c) PutEl(&seg, 0x1F43B675, bodies[c]);
  if (!cl.empty() && !d.cues_front) { d.cues_at.pos = seg.size(); Cat(&seg, cue_bytes()); d.cues_at.size = seg.size() - d.cues_at.pos; }
  d.cues = cl;
  d.seg_pos = d.b.size();
  PutId(&d.b, 0x18538067);
  PutVint(&d.b, seg.size(), 8);
  const uint64_t base = d.b.size();
  d.payload = base;
  d.seek.pos += base; d.info_at.pos += base; d.tracks_at.pos += base; d.cues_at.pos += base;
  for (auto& e : d.seeks) e.pos += base;
  for (auto& e : d.voids) e.pos += base;
  for (auto& t : d.tracks) t.pos += base;
  d.seg_size = seg.size() + (base - d.seg_pos);
  Cat(&d.b, seg);
  for (size_t c = 0; c < bodies.size(); ++c) {
    VClu& k = d.clusters[c];
    const uint64_t hl = 4 + (uint64_t)VintLen(bodies[c].size());
    k.pos = base + cpos[c]; k.size = hl + bodies[c].size();
    for (auto& b : k.blocks) { b.pos += k.pos + hl; for (auto& f : b.frames) f.pos += k.pos + hl; }
  }
  return d;
}

std::vector<std::string> Lines(const std::string& t) {
  std::vector<std::string> o;
  size_t p = 0;
  while (p < t.size()) {
    size_t q = t.find('\n', p);
    if (q == std::string::npos) q = t.size();
    size_t a = p;
    while (a < q && (t[a] == ' ' || t[a] == '\t')) ++a;
    std::string l = t.substr(a, q - a);
    while (!l.empty() && l.back() == ' ') l.pop_back();
    if (!l.empty()) o.push_back(l);
    p = q + 1;
  }
  return o;
}
bool Starts(const std::string& s, std::initializer_list<const char*> ps) { for (auto p : ps) if (s.compare(0, strlen(p), p) == 0) return true; return false; }
void Drop(std::vector<std::string>* v, std::initializer_list<const char*> ps) { v->erase(std::remove_if(v->begin(), v->end(), [&](const std::string& s) { return Starts(s, ps); }), v->end()); }
void Compare(const char* what, const std::vector<std::string>& want, const std::vector<std::string>& got) {
  for (size_t i = 0; i < want.size() || i < got.size(); ++i) {
    if (i >= got.size()) Fail(std::string("C24:missing-line"), "%s: \"%s\" is not printed", what, want[i].c_str());
    if (i >= want.size()) Fail(std::string("C24:extra-line"), "%s: \"%s\" is printed", what, got[i].c_str());
    if (want[i] != got[i]) Fail(std::string("C24:line"), "%s prints \"%s\" instead of \"%s\"", what, got[i].c_str(), want[i].c_str());
  }
}

struct InfoOpts {
  bool video = true, audio = true, size = false, offset = false, seconds = true, ebml = true, segment = true, seekhead = false, info = true, tracks = true, clusters = false, blocks = false,
       codec = false, csize = false, enc = false, cues = false, stats = false, level = false;
};
std::vector<std::string> InfoArgs(InfoOpts* o) {
  std::vector<std::string> a;
  struct N { const char* n; bool* f; uint32_t den; };
  const N l[] = {{"video", &o->video, 8}, {"audio", &o->audio, 8}, {"size", &o->size, 4}, {"offset", &o->offset, 4}, {"times_seconds", &o->seconds, 2}, {"ebml_header", &o->ebml, 8}, {"segment", &o->segment, 8},
                 {"seekhead", &o->seekhead, 2}, {"segment_info", &o->info, 8}, {"tracks", &o->tracks, 8}, {"clusters", &o->clusters, 8}, {"blocks", &o->blocks, 8}, {"codec_info", &o->codec, 4},
                 {"clusters_size", &o->csize, 4}, {"encrypted_info", &o->enc, 4}, {"cues", &o->cues, 3}, {"frame_stats", &o->stats, 3}, {"vp9_level", &o->level, 3}};
  const bool all = Chance(7, 8, "i.all");
  if (all) { a.push_back("-all"); for (auto& e : l) if (e.f != &o->seekhead) *e.f = true; }
  for (auto& e : l) if (Chance(1, all ? e.den : 2, e.n)) {
    *e.f = all ? e.f == &o->seekhead : Chance(1, 2, "i.on");
    a.push_back(std::string(*e.f ? "-" : "-no") + e.n);
  }
  a.push_back("-i"); a.push_back("/sim/in.webm");
  return a;
}
std::string Secs(bool sec, const char* s, const char* n, ll ns) { return sec ? Fmt("%s%g", s, (double)ns / 1e9) : Fmt("%s%lld", n, ns); }

// The statistics of the VP9 frames whose headers were readable, in file order.
void WantStats(const std::vector<std::vector<Vp9Ev>>& packets, ll dur, const InfoOpts& o, std::vector<std::string>* w) {
  std::vector<Vp9Ev> all;
  ll window = 0, window_end = 0, dist = -1, dist_at = 0, since = 0, displayed = 0;
  bool first = true;
  for (auto& p : packets) {
    for (auto& e : p) {
      all.push_back(e);
      if (e.altref) { if (!first && (dist < 0 || since < dist)) { dist = since; dist_at = e.ns; } first = false; since = 0; } else { ++since; ++displayed; }
    }
    ll n = 0;
    for (auto& e : all) n += !p.empty() && e.ns > p[0].ns - 1000000000;
    if (n > window) { window = n; window_end = p[0].ns; }
  }
  if (o.stats && dist >= 0) {
    if (dur > 0) w->push_back(Fmt("Actual fps:%g  Displayed fps:%g", (double)all.size() / ((double)dur / 1e9), (double)displayed / ((double)dur / 1e9))); else w->push_back("?fps");
    w->push_back(Fmt("Minimum Altref Distance:%lld  at:%g seconds", dist, (double)dist_at / 1e9));
    const double end = (double)window_end / 1e9;
    w->push_back(Fmt("Maximum Window:%g-%g seconds  Window fps:%lld", window_end > 1000000000 ? end - 1.0 : 0.0, end, window));
  }
  if (!o.level) return;
  ll rate = 0, pic = 0, breadth = 0, cpb = 0, total = 0, raw = 0; int tiles = 0, refs = 0, seen = 0;
  for (size_t i = 0; i < all.size(); ++i) {
    const Vp9Ev& e = all[i];
    const ll luma = e.w * e.h;
    pic = std::max(pic, luma); breadth = std::max(breadth, std::max(e.w, e.h)); tiles = std::max(tiles, e.ct);
    ll sum = 0, four = 0;
    for (size_t j = 0; j <= i; ++j) { if (all[j].ns > e.ns - 1000000000) sum += all[j].w * all[j].h; if (j + 4 > i) four += (ll)all[j].size; }
    rate = std::max(rate, sum); cpb = std::max(cpb, four); total += (ll)e.size;
    if (!e.altref) raw += luma * e.depth * 3 / 2;
    if (e.key) seen = 0; else { seen |= e.refresh; refs = std::max(refs, __builtin_popcount((unsigned)seen)); }
  }
  const ll span = all.empty() ? 0 : all.back().ns - all[0].ns;
  double secs = (double)(dur == -1 ? span : dur) / 1e9;
  if (dur == -1 || dur <= span) secs += displayed > 1 ? (double)span / 1e9 / (double)(displayed - 1) : 0;
  const double abr = secs > 0 && displayed > 1 ? (double)total / secs / 125.0 : -1, mcs = (double)cpb / 125.0, cr = total ? (double)raw / (double)(total * 8) : -1;
  static const struct { int level; double rate, pic, breadth, abr, cpb, cr; int tiles, dist, refs; } tab[] = {
      {10, 829440, 36864, 512, 200, 400, 2, 1, 4, 8}, {11, 2764800, 73728, 768, 800, 1000, 2, 1, 4, 8}, {20, 4608000, 122880, 960, 1800, 1500, 2, 1, 4, 8}, {21, 9216000, 245760, 1344, 3600, 2800, 2, 2, 4, 8},
      {30, 20736000, 552960, 2048, 7200, 6000, 2, 4, 4, 8}, {31, 36864000, 983040, 2752, 12000, 10000, 2, 4, 4, 8}, {40, 83558400, 2228224, 4160, 18000, 16000, 4, 4, 4, 8}, {41, 160432128, 2228224, 4160, 30000, 18000, 4, 4, 5, 6},
      {50, 311951360, 8912896, 8384, 60000, 36000, 6, 8, 6, 4}, {51, 588251136, 8912896, 8384, 120000, 46000, 8, 8, 10, 4}, {52, 1176502272, 8912896, 8384, 180000, 0, 8, 8, 10, 4}, {60, 1176502272, 35651584, 16832, 180000, 0, 8, 16, 10, 4},
      {61, 2353004544., 35651584, 16832, 240000, 0, 8, 16, 10, 4}, {62, 4706009088., 35651584, 16832, 480000, 0, 8, 16, 10, 4}};
  if (dist < 0 || abr < 0 || cr < 0 || secs <= 0) w->push_back("?VP9 Level");
  else {
    // The lowest level that allows each single quantity; the highest of these.
    int need = -1;
    auto at = [&](auto ok) { for (int i = 0; i < 14; ++i) if (ok(tab[i])) { need = std::max(need, i); return; } };
    at([&](auto& r) { return (double)rate <= r.rate * (1.5 / 100.0 + 1.0); }); at([&](auto& r) { return (double)pic <= r.pic; }); at([&](auto& r) { return (double)breadth <= r.breadth; }); at([&](auto& r) { return abr <= r.abr; });
    at([&](auto& r) { return r.cpb > 0 && mcs <= r.cpb; }); at([&](auto& r) { return tiles <= r.tiles; }); at([&](auto& r) { return refs <= r.refs; });
    const bool ok = dist >= tab[need].dist && cr >= tab[need].cr;
    Count(ok ? "c24.level_known" : dist < tab[need].dist ? "c24.level_altref" : "c24.level_ratio");
    if (ok) Count(Fmt("c24.level_%d", tab[need].level).c_str());
    w->push_back(Fmt("VP9 Level:%d", ok ? tab[need].level : 0));
  }
  w->push_back(Fmt("mlsr:%lld mlps:%lld mlpb:%lld abr:", rate, pic, breadth) + (abr < 0 ? "?" : Fmt("%g", abr)) + Fmt(" mcs:%g cr:", mcs) + (cr < 0 ? "?" : Fmt("%g", cr)) + Fmt(" mct:%d mad:%lld mrf:%d", tiles, dist, refs));
}
// A line "?x" stands for any lines that begin with x; "~x" for one that begins with x.
std::vector<std::string> WantInfo(const VDoc& d, const InfoOpts& o, bool hurt) {
  std::vector<std::string> w;
  bool blind = false;       // encrypted frames taken for plain ones disturb the state of the VP9 reader
  for (auto& t : d.tracks) blind |= t.enc && (hurt || !o.enc);
  auto span = [&](uint64_t pos, uint64_t size, const char* sp = "  ") { std::string s; if (o.offset) s += Fmt("%s@:%s%llu", sp, sp[1] ? " " : "", (ull)pos); if (o.size) s += Fmt("%ssize:%s%llu", sp, sp[1] ? " " : "", (ull)size); return s; };
  if (o.ebml) {
    w.push_back("EBML Header:"); w.push_back(Fmt("EBMLVersion       : %d", d.ebml_version)); w.push_back("EBMLReadVersion   : 1"); w.push_back("EBMLMaxIDLength   : 4"); w.push_back("EBMLMaxSizeLength : 8");
    w.push_back("Doc Type          : " + d.doctype); w.push_back(Fmt("DocTypeVersion    : %d", d.doc_version)); w.push_back(Fmt("DocTypeReadVersion: %d", d.doc_read));
  }
  if (o.segment) w.push_back("Segment:" + span(d.seg_pos, d.seg_size));
  if (o.seekhead && d.has_seek) {
    w.push_back("SeekHead:" + span(d.seek.pos, d.seek.size));
    for (size_t i = 0; i < d.seeks.size(); ++i) { auto& e = d.seeks[i]; w.push_back(Fmt("Entry[%zu]", i) + span(e.pos, e.size)); w.push_back(Fmt("Seek ID       : %llx", (ull)e.id)); w.push_back(Fmt("Seek position : %llu", (ull)e.at)); }
    for (size_t i = 0; i < d.voids.size(); ++i) w.push_back(Fmt("Void element[%zu]", i) + span(d.voids[i].pos, d.voids[i].size));
  }
  const ll dur = d.duration < 0 ? -1 : (ll)(d.duration * (double)d.scale);
  if (o.info) {
    w.push_back("SegmentInfo:" + span(d.info_at.pos, d.info_at.size));
    w.push_back(Fmt("TimecodeScale : %llu", (ull)d.scale));
    w.push_back(o.seconds ? Fmt("Duration(secs): %g", (double)dur / 1e9) : Fmt("Duration(nano): %lld", dur));
    if (!d.title.empty()) w.push_back("Title         : " + d.title);
    if (!d.muxing.empty()) w.push_back("MuxingApp     : " + d.muxing);
    if (!d.writing.empty()) w.push_back("WritingApp    : " + d.writing);
  }
  if (o.tracks) {
    w.push_back("Tracks:" + span(d.tracks_at.pos, d.tracks_at.size));
    for (auto& t : d.tracks) { w.push_back("Track:" + span(t.pos, t.size)); w.insert(w.end(), t.info.begin(), t.info.end()); }
  }
  auto cues = [&] {
    if (d.cues.empty()) return;
    w.push_back("Cues:" + span(d.cues_at.pos, d.cues_at.size, " "));
    for (size_t i = 0; i < d.cues.size(); ++i) for (auto& t : d.tracks) for (auto& a : d.cues[i].at) if (a.track == t.number) {
      const ll ns = (ll)(d.cues[i].time * d.scale);
      w.push_back(Fmt("Cue Point:%zu type:%c track:%d", i + 1, t.type == 1 ? 'V' : 'A', t.number) + Secs(o.seconds, " secs:", " nano:", ns) + (o.blocks ? Fmt(" block:%llu", (ull)a.block) : "") + (o.offset ? Fmt(" @:%llu", (ull)a.pos) : ""));
    }
  };
  if (o.cues && d.cues_front) cues();
  if (o.clusters) w.push_back(Fmt("Clusters (count):%zu", d.clusters.size()));
  uint64_t total = 0;
  std::vector<std::vector<Vp9Ev>> packets;
  for (auto& k : d.clusters) {
    total += k.size;
    if (o.clusters) {
      w.push_back("Cluster:" + span(k.pos, k.size));
      const ll ns = (ll)(k.tc * d.scale), len = (k.blocks.back().tc - k.blocks.front().tc) * (ll)d.scale;
      w.push_back(Secs(o.seconds, "Timecode (sec) : ", "Timecode (nano): ", ns));
      w.push_back(Secs(o.seconds, "Duration (sec) : ", "Duration (nano): ", len));
      w.push_back(Fmt("# Blocks       : %zu", k.blocks.size()));
    }
    if (o.blocks) for (auto& b : k.blocks) {
      const VTrack& t = d.tracks[(size_t)b.track];
      if (t.type > 2 || !(t.type == 1 ? o.video : o.audio)) continue;
      if (b.group) w.push_back("BlockGroup:");
      const ll ns = b.tc * (ll)d.scale;
      std::string l = Fmt("Block: type:%s frame:%s", t.type == 1 ? "V" : "A", b.key ? "I" : "P");
      l += o.seconds ? Fmt(" secs:%5g", (double)ns / 1e9) : Fmt(" nano:%10lld", ns);
      if (o.offset) l += Fmt(" @_payload: %llu", (ull)b.pos);
      if (o.size) l += Fmt(" size_payload: %llu", (ull)b.size);
      const bool dim = blind && (t.enc || (o.codec && t.codec == 1)), one = b.frames.size() == 1, info = o.codec && t.type == 1;
      if (dim) l = "~" + l;        // the rest is not judged
      else {
        if (o.enc && t.enc) l += b.frames[0].enc;
        if (info && one) l += b.frames[0].info;
      }
      w.push_back(l);
      if (info && !one) for (auto& f : b.frames) w.push_back(dim ? std::string("~VP8 data     :") : "VP8 data     :" + f.info);
      if (info && t.codec == 1) for (auto& f : b.frames) if (f.read) { packets.push_back(f.ev); for (auto& e : packets.back()) e.ns = ns; }
      if (b.group && b.discard) w.push_back(Fmt("DiscardPadding: %10lld", b.discard));
    }
  }
  if (o.csize) w.push_back(Fmt("Clusters (size):%llu", (ull)total));
  if (o.cues && !d.cues_front) cues();
  if (blind || d.vp9 > 1) { if (o.stats) { w.push_back("?Actual fps"); w.push_back("?Minimum Altref"); w.push_back("?Maximum Window"); } if (o.level) { w.push_back("?VP9 Level"); w.push_back("?mlsr"); } }
  else WantStats(packets, dur, o, &w);
  return w;
}
std::vector<std::string> WantSample(const VDoc& d) {
  std::vector<std::string> w;
  w.push_back("EBML Header"); w.push_back(Fmt("EBML Version\t\t: %d", d.ebml_version)); w.push_back("EBML MaxIDLength\t: 4"); w.push_back("EBML MaxSizeLength\t: 8"); w.push_back("Doc Type\t\t: " + d.doctype); w.push_back(Fmt("Pos\t\t\t: %llu", (ull)d.seg_pos));
  w.push_back("Segment Info");
  w.push_back(Fmt("TimeCodeScale\t\t: %llu", (ull)d.scale));
  const ll dur = d.duration < 0 ? -1 : (ll)(d.duration * (double)d.scale);
  w.push_back(Fmt("Duration\t\t: %lld", dur)); w.push_back(Fmt("Duration(secs)\t\t: %7.3f", (double)dur / 1e9));
  auto N = [](const std::string& s) { return s.empty() ? std::string("NULL") : s; };
  w.push_back("Track Name\t\t: " + N(d.title)); w.push_back("Muxing App\t\t: " + N(d.muxing)); w.push_back("Writing App\t\t: " + N(d.writing));
  w.push_back(Fmt("Position(Segment)\t: %llu", (ull)d.payload)); w.push_back(Fmt("Size(Segment)\t\t: %llu", (ull)(d.seg_size - (d.payload - d.seg_pos))));
  w.push_back("Track Info");
  for (auto& t : d.tracks) w.insert(w.end(), t.sample.begin(), t.sample.end());
  w.push_back("Cluster Info");
  w.push_back(Fmt("Cluster Count\t: %zu", d.clusters.size()));
  for (auto& k : d.clusters) {
    w.push_back(Fmt("Cluster Time Code\t: %llu", (ull)k.tc)); w.push_back(Fmt("Cluster Time (ns)\t: %llu", (ull)(k.tc * d.scale)));
    for (auto& b : k.blocks) {
      if (b.foreign) { w.push_back("Block\t\t:UNKNOWN TRACK TYPE"); continue; }
      w.push_back(Fmt("Block\t\t:%s,%s,%15lld,%lld", d.tracks[(size_t)b.track].type == 1 ? "V" : "A", b.key ? "I" : "P", b.tc * (ll)d.scale, b.discard));
      for (auto& f : b.frames) w.push_back(Fmt("%zu,%15llx", f.fr.size(), (ull)f.pos));
    }
  }
  if (!d.cues.empty()) w.push_back("Cues");
  for (size_t i = 0; i < d.cues.size(); ++i) for (auto& t : d.tracks) for (auto& a : d.cues[i].at) if (a.track == t.number)
    w.push_back(Fmt("Cue Point %4zu Track %3d(%c) Time %14llu Block %4llu Pos %8llx", i + 1, t.number, t.type == 1 ? 'V' : 'A', (ull)(d.cues[i].time * d.scale), (ull)a.block, (ull)a.pos));
  if (!d.tags.empty()) w.push_back("Tags");
  for (auto& t : d.tags) { w.push_back("Tag"); for (auto& p : t) w.push_back("Simple Tag \"" + p.first + "\" Value \"" + p.second + "\""); }
  return w;
}
// Resolves the wildcards of |want| against |got|.
void Match(std::vector<std::string>* want, std::vector<std::string>* got) {
  std::vector<std::string> w;
  size_t g = 0;
  for (auto& l : *want) {
    if (!l.empty() && l[0] == '?') {
      const std::string pre = l == "?fps" ? "Actual fps" : l.substr(1);
      while (g < got->size() && (*got)[g].compare(0, pre.size(), pre) == 0) got->erase(got->begin() + (long)g);
      continue;
    }
    std::string x = l;
    if (!l.empty() && l[0] == '~') { x.erase(0, 1); if (g < got->size() && (*got)[g].compare(0, x.size(), x) == 0) (*got)[g] = x; }
    if (g < got->size()) for (const char* k : {"abr:", "cr:"}) {
      const size_t p = x.find(std::string(k) + "?"), q = (*got)[g].find(k);
      if (p == std::string::npos || q == std::string::npos || x[0] != 'm') continue;
      size_t e = (*got)[g].find(' ', q); if (e == std::string::npos) e = (*got)[g].size();
      (*got)[g].replace(q + strlen(k), e - q - strlen(k), "?");
    }
    w.push_back(x); ++g;
  }
  *want = w;
}

// C24: what the inspection programs print is what the file holds.
void C24() {
  g_fs.Reset();
  VDoc d = DrawVDoc(false);
  g_fs.Put("/sim/in.webm", d.b);
  const bool sample = Chance(1, 3, "i.sample");
  InfoOpts o;
  std::vector<std::string> a = sample ? std::vector<std::string>{"/sim/in.webm"} : InfoArgs(&o);
  FsPlan p = DrawFaults(d.b.size());
  p.capacity = ~0ULL; p.fail_write = 0;
  g_fs.SetPlan(p);
  ToolRun r = RunTool(sample ? "mkvparser_sample" : "webm_info", a);
  const bool hurt = g_fs.failed_reads + g_fs.failed_seeks + g_fs.failed_opens != 0;
  if (g_fs.open_handles) Fail("C24:handle", "%d file handles are still open", g_fs.open_handles);
  if (d.priv_conflict && !sample && o.tracks) {
    if (r.rc == 0) Fail("C24:codec-private", "a codec private that gives two values for one feature is accepted");
    Count("c24.private_conflict");
    return;
  }
  if (d.foreign && !sample && o.blocks) {
    if (r.rc == 0) Fail("C24:foreign-block", "a block of no track is printed");
    Count("c24.foreign_refused");
    return;
  }
  if (r.rc != 0) {
    if (!hurt) Fail("C24:refused", "a good file is refused although nothing went wrong");
    Count("c24.refused");
    return;
  }
  std::vector<std::string> want = sample ? WantSample(d) : WantInfo(d, o, hurt);
  std::vector<std::string> got = Lines(r.out);
  Drop(&got, {"libwebm version"});
  if (hurt) {      // cue points, seek entries and content encodings that cannot be read are left out by the library
    for (auto* v : {&want, &got}) Drop(v, {"Cue", "No cue points", "ContentEnc", "ContentSig", "CipherMode", "Entry[", "Seek ID", "Seek position", "Void element["});
  }
  Match(&want, &got);
  Compare(sample ? "mkvparser_sample" : "webm_info", want, got);
  size_t n = 0;
  for (auto& k : d.clusters) n += k.blocks.size();
  Count("c24.blocks", n);
  if (n > 2) MarkNontrivial();
  if (hurt) Count("c24.ok_despite_fault");
}
SIM_SCENARIO("C24", C24);

// C23: no input and no disk fault makes a program crash, hang or reach outside
// its memory.
Bytes DrawVttText() {
  std::string s = Chance(7, 8, "w.sig") ? "WEBVTT\n\n" : "";
  static const char* piece[] = {"WEBVTT", "\n", "\r\n", "\r", "00:00:01.000 --> 00:00:02.000", " --> ", "id", " line:5%", "text", "\n\n", ":", "00:", ".", "99999999999999999999", "\xEF\xBB\xBF", "a:b", " ", "\t", "--", ">", "00:00:01.000 -->", "--> 00:00:01.000"};
  int n = (int)Range(0, 40, "w.n");
  for (int i = 0; i < n; ++i) { if (Chance(1, 12, "w.raw")) s += (char)Draw(256, "w.c"); else s += piece[Draw(sizeof piece / sizeof *piece, "w.p")]; }
  return Bytes(s.begin(), s.end());
}
void C23() {
  g_fs.Reset();
  Bytes b; bool intact = false;
  const int kind = Chance(1, 8, "s.kind0") ? 0 : (int)Range(1, 3, "s.kind");
  if (kind == 0) b = DrawHostile();
  else {
    VDoc d = DrawVDoc(Chance(2, 3, "s.wild"));
    b = d.b;
    if (kind == 1) intact = true;
    else MutateBytes(&b, (int)Range(1, kind == 2 ? 2 : 6, "s.nmut"));
  }
  const int tool = (int)Draw(8, "s.tool");
  if (tool == 6) b = DrawVttText();
  g_fs.Put("/sim/in.webm", b);
  std::vector<std::string> a; const char* name;
  switch (tool) {
    case 0: case 1: { InfoOpts o; a = InfoArgs(&o); name = "webm_info"; break; }
    case 2: a = {"/sim/in.webm"}; name = "mkvparser_sample"; break;
    case 3: {
      a = {"-i", "/sim/in.webm", "-o", "/sim/out.webm"};
      for (const char* f : {"-live", "-cues_before_clusters", "-cues_on_audio_track", "-accurate_cluster_duration", "-fixed_size_cluster_timecode", "-copy_input_duration", "-copy_tags", "-switch_tracks"})
        if (Chance(1, 5, f)) { a.push_back(f); a.push_back("1"); }
      for (const char* f : {"-video", "-audio", "-output_cues"}) if (Chance(1, 8, f)) { a.push_back(f); a.push_back("0"); }
      name = "mkvmuxer_sample"; break;
    }
    case 4: a = {"/sim/in.webm", "/sim/out"}; name = "webm2pes"; break;
    case 5: a = {"/sim/in.webm", "/sim/out"}; name = "webm2ts"; break;
    case 6: a = {"/sim/in.webm"}; name = "dumpvtt"; break;
    default: a = {"/sim/in.webm"}; name = "vttdemux"; break;
  }
  EvHash(b.data(), b.size());
  g_fs.SetPlan(Chance(1, 3, "s.fault") ? DrawFaults(b.size()) : FsPlan());
  ToolRun r = RunTool(name, a);
  if (g_fs.open_handles) Fail("C23:handle", "%s: %d file handles are still open", name, g_fs.open_handles);
  Count((std::string("c23.") + name).c_str());
  if (r.rc == 0) Count((std::string("c23.ok.") + name).c_str());
  if (!intact) MarkNontrivial();
}
SIM_SCENARIO("C23", C23);
}  // namespace
}  // namespace sim
