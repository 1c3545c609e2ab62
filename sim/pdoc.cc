#include "pdoc.h"

#include <cmath>

namespace sim {
const uint32_t kHostileIds[] = {0x1A45DFA3, 0x18538067, 0x114D9B74, 0x4DBB, 0x53AB, 0x53AC, 0x1549A966, 0x2AD7B1, 0x4489, 0x1654AE6B, 0xAE, 0xD7, 0x73C5, 0x83, 0x86, 0x63A2, 0xE0, 0xB0, 0xBA, 0x55B0, 0x55D0, 0x7670, 0x7672, 0xE1, 0xB5, 0x6D80, 0x6240, 0x5034, 0x5035, 0x47E2, 0x4254, 0x4255, 0x1F43B675, 0xE7, 0xA3, 0xA0, 0xA1, 0x9B, 0xFB, 0x75A2, 0x1C53BB6B, 0xBB, 0xB3, 0xB7, 0xF7, 0xF1, 0x5378, 0x1043A770, 0x45B9, 0xB6, 0x80, 0x85, 0x1254C367, 0x7373, 0x67C8, 0x45A3, 0x4487, 0xEC, 0x536E, 0x22B59C, 0x258688, 0x56AA, 0x56BB, 0x5031, 0x5032, 0x5033, 0x4282};
const size_t kNumHostileIds = sizeof kHostileIds / sizeof *kHostileIds;
namespace {

struct Node {
  uint32_t id = 0; bool master = false; Bytes data; std::vector<std::shared_ptr<Node>> kids;
  int size_len = 0; bool unknown = false; int64_t lie = 0;     // added to the declared size (hostile files)
  uint64_t pos = 0, body = 0, end = 0;
};
typedef std::shared_ptr<Node> N;

int IdLen(uint32_t id) { return id > 0xffffff ? 4 : id > 0xffff ? 3 : id > 0xff ? 2 : 1; }
int MinSizeLen(uint64_t v) { int n = 1; while (v >= (1ULL << (7 * n)) - 1) ++n; return n; }
uint64_t BodySize(const N& n);
uint64_t FullSize(const N& n) {
  uint64_t s = BodySize(n);
  int sl = n->size_len ? n->size_len : MinSizeLen(s);
  return IdLen(n->id) + sl + s;
}
uint64_t BodySize(const N& n) {
  if (!n->master) return n->data.size();
  uint64_t s = 0;
  for (auto& k : n->kids) s += FullSize(k);
  return s;
}
void PutSize(Bytes* o, uint64_t v, int len) {
  uint64_t x = v | (1ULL << (7 * len));
  for (int i = len - 1; i >= 0; --i) o->push_back((uint8_t)(x >> (8 * i)));
}
void Emit(const N& n, Bytes* o) {
  n->pos = o->size();
  for (int i = IdLen(n->id) - 1; i >= 0; --i) o->push_back((uint8_t)(n->id >> (8 * i)));
  uint64_t s = BodySize(n);
  int sl = n->size_len ? n->size_len : MinSizeLen(s);
  if (n->unknown) PutSize(o, (1ULL << (7 * sl)) - 1, sl);
  else PutSize(o, (s + n->lie) & ((1ULL << (7 * sl)) - 1), sl);
  n->body = o->size();
  if (n->master) for (auto& k : n->kids) Emit(k, o);
  else o->insert(o->end(), n->data.begin(), n->data.end());
  n->end = o->size();
}

// A size field may be longer than needed (never shorter).
void FixLen(const N& n) {
  if (n->size_len) { int m = MinSizeLen(BodySize(n)); if (n->size_len < m) n->size_len = m; }
  for (auto& k : n->kids) FixLen(k);
}
bool g_rich = true;
N Leaf(const N& p, uint32_t id, const Bytes& d) {
  auto n = std::make_shared<Node>();
  n->id = id; n->data = d;
  if (g_rich && Chance(1, 24, "p.longsize")) n->size_len = (int)Range(1, 8, "p.sl");
  if (p) p->kids.push_back(n);
  return n;
}
N Master(const N& p, uint32_t id) {
  auto n = std::make_shared<Node>();
  n->id = id; n->master = true;
  if (g_rich && Chance(1, 10, "p.mlongsize")) n->size_len = (int)Range(1, 8, "p.sl");
  if (p) p->kids.push_back(n);
  return n;
}
Bytes UBytes(uint64_t v, int n) { Bytes d(n); for (int i = 0; i < n; ++i) d[n - 1 - i] = (uint8_t)(v >> (8 * i)); return d; }
int ULen(uint64_t v) { int n = 1; while (n < 8 && (v >> (8 * n))) ++n; return n; }
N UInt(const N& p, uint32_t id, uint64_t v) {
  int n = ULen(v);
  if (g_rich && n < 8 && Chance(1, 6, "p.ulong")) n = (int)Range(n, 8, "p.ul");
  return Leaf(p, id, UBytes(v, n));
}
N SInt(const N& p, uint32_t id, int64_t v) {
  int n = 1;
  while (n < 8 && (v < -(1LL << (8 * n - 1)) || v >= (1LL << (8 * n - 1)))) ++n;
  if (g_rich && n < 8 && Chance(1, 6, "p.slong")) n = (int)Range(n, 8, "p.ul");
  return Leaf(p, id, UBytes((uint64_t)v, n));
}
double g_last_float;
N Float(const N& p, uint32_t id, double v) {
  if (Chance(1, 2, "p.f8")) { uint64_t u; memcpy(&u, &v, 8); g_last_float = v; return Leaf(p, id, UBytes(u, 8)); }
  float f = (float)v; uint32_t u; memcpy(&u, &f, 4); g_last_float = f;
  return Leaf(p, id, UBytes(u, 4));
}
N Str(const N& p, uint32_t id, const std::string& s) { return Leaf(p, id, Bytes(s.begin(), s.end())); }
std::string Text(const char* l) {
  static const char* w[] = {"a", "und", "Main title", "\xC3\xA9t\xC3\xA9 \xE6\x97\xA5\xE6\x9C\xAC", "x", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"};
  return w[Draw(6, l)];
}
// Void and unknown elements that every reader must step over.
void Noise(const N& p, const char* l) {
  if (!g_rich || !Chance(1, 8, l)) return;
  static const uint32_t ids[] = {0xEC, 0xEC, 0xBF, 0x4FFF, 0x3FABCD, 0x1ABCDEF1};
  uint32_t id = ids[Draw(6, "p.nid")];
  // 0x1A... would look like an EBML header only in front of the header.
  uint64_t len = Range(1, 40, "p.nlen");
  if (Chance(1, 10, "p.nbig")) len = Range(100, 20000, "p.nblen");
  Leaf(p, id, MakePayload(Draw(1000, "p.nseed"), len));
}
void VoidIn(const N& p, bool empty_ok = true) { if (g_rich && Chance(1, 10, "p.void")) Leaf(p, 0xEC, Bytes(empty_ok && Chance(1, 4, "p.v0") ? 0 : Range(1, 30, "p.vlen"), 0)); }

// Damages the element tree in k places; sizes around the damage stay consistent.
void MutateTree(const N& root, int k) {
  for (; k > 0; --k) {
    std::vector<std::pair<N, size_t>> at;          // (parent, index of a child)
    std::vector<N> masters = {root};
    for (size_t i = 0; i < masters.size() && i < 4000; ++i)
      for (size_t j = 0; j < masters[i]->kids.size(); ++j) {
        at.push_back({masters[i], j});
        if (masters[i]->kids[j]->master) masters.push_back(masters[i]->kids[j]);
      }
    if (at.empty()) return;
    // The parts other than clusters are small: aim at a part first.
    if (Chance(2, 3, "h.tpart") && !root->kids.empty()) {
      const N part = root->kids[Draw(root->kids.size(), "h.tp")];
      std::vector<N> in = {part};
      std::vector<std::pair<N, size_t>> a2;
      for (size_t i = 0; i < in.size() && i < 4000; ++i)
        for (size_t j = 0; j < in[i]->kids.size(); ++j) {
          a2.push_back({in[i], j});
          if (in[i]->kids[j]->master) in.push_back(in[i]->kids[j]);
        }
      if (!a2.empty()) at = a2;
    }
    const auto t = at[Draw(at.size(), "h.tat")];
    std::vector<N>& kids = t.first->kids;
    const N n = kids[t.second];
    auto fresh = [&](const Bytes& b) { auto x = std::make_shared<Node>(); x->id = Chance(1, 2, "h.tvoid") ? 0xEC : kHostileIds[Draw(kNumHostileIds, "h.tid")]; x->data = b; return x; };
    auto copy = [&](const N& x) {       // may later be damaged separately
      std::vector<std::pair<N, N>> todo; auto r = std::make_shared<Node>(*x); todo.push_back({x, r});
      for (size_t i = 0; i < todo.size(); ++i) { const N c = todo[i].second; for (auto& q : c->kids) { auto d = std::make_shared<Node>(*q); q = d; todo.push_back({d, d}); } }
      return r;
    };
    const int op = (int)Draw(11, "h.tmut");
    if ((op == 2 || op == 9) && BodySize(root) > 1000000) continue;
    switch (op) {
      case 0: kids.insert(kids.begin() + t.second, fresh(Bytes())); break;
      case 1: kids.insert(kids.begin() + t.second, fresh(Bytes(Magnitude(40, "h.tlen"), (uint8_t)Draw(3, "h.tfill")))); break;
      case 2: { uint64_t c = 1 + Magnitude(6, "h.tdup"); for (; c; --c) { N x = copy(n); kids.insert(kids.begin() + t.second, x); } break; }
      case 3: kids.erase(kids.begin() + t.second); break;
      case 4: n->master = false; n->kids.clear(); n->data.clear(); break;
      case 5: {
        static const uint64_t ext[] = {0, 1, 2, 0x7FFF, 0x8000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0xFFFFFFFFFFFFFFFFULL, 0x7FF0000000000000ULL, 0x7F800000};
        if (!n->master) n->data = UBytes(ext[Draw(13, "h.text")], (int)Range(0, 8, "h.tw"));
        break;
      }
      case 6: n->id = kHostileIds[Draw(kNumHostileIds, "h.tid")]; break;
      case 7: if (n->master) n->unknown = true; else n->data.resize(Magnitude(60, "h.tsz")); break;
      case 8: std::swap(kids[t.second], kids[Draw(kids.size(), "h.tsw")]); break;
      case 9: { const N to = masters[Draw(masters.size(), "h.tto")]; N x = copy(n); to->kids.insert(to->kids.begin() + Draw(to->kids.size() + 1, "h.ti"), x); break; }
      default: n->lie = Chance(1, 2, "h.tl1") ? (int64_t)Range(0, 6, "h.tlie") - 3 : (int64_t)Magnitude(1ULL << 40, "h.tlie2"); break;
    }
  }
}

struct M {   // expected lines
  std::vector<std::string>* v;
  void operator()(const std::string& s) { v->push_back(s); }
};
typedef unsigned long long ull;
typedef long long ll;

std::string HexOf(const Bytes& b) { return Fmt("%zu:%016llx", b.size(), (ull)Fnv(b.data(), b.size())); }

}  // namespace

PDoc DrawPDoc(const PDocOpts& o) {
  PDoc d;
  M m{&d.meta};
  g_rich = o.meta && Chance(2, 3, "p.rich");
  Bytes out;
  // ---- EBML header
  if (g_rich && Chance(1, 12, "p.junk?")) {
    uint64_t n = Range(1, 900, "p.junk");
    for (uint64_t i = 0; i < n; ++i) { uint8_t c = (uint8_t)(i * 7 + 3); out.push_back(c == 0x1A ? 0 : c); }
  }
  {
    N h = Master(nullptr, 0x1A45DFA3);
    ll ver = 1, rver = 1, maxid = 4, maxsz = 8, dtv = 1, dtr = 1;
    std::string dt = Chance(1, 4, "p.mkv") ? "matroska" : "webm";
    if (Chance(3, 4, "p.ver")) UInt(h, 0x4286, ver = (ll)Range(1, 3, "p.v"));
    if (Chance(3, 4, "p.rver")) UInt(h, 0x42F7, rver = (ll)Range(1, 3, "p.v"));
    if (Chance(3, 4, "p.maxid")) UInt(h, 0x42F2, maxid = (ll)Range(1, 4, "p.v"));
    if (Chance(3, 4, "p.maxsz")) UInt(h, 0x42F3, maxsz = (ll)Range(1, 8, "p.v"));
    Str(h, 0x4282, dt);
    if (Chance(3, 4, "p.dtv")) UInt(h, 0x4287, dtv = (ll)Range(1, 4, "p.v"));
    if (Chance(3, 4, "p.dtr")) UInt(h, 0x4285, dtr = (ll)Range(1, 4, "p.v"));
    VoidIn(h, false);     // EBMLHeader::Parse takes no empty element
    FixLen(h);
    m(Fmt("ebml pos=%llu ver=%lld/%lld max=%lld/%lld doc=%s %lld/%lld", (ull)(out.size() + FullSize(h)), ver, rver, maxid, maxsz, dt.c_str(), dtv, dtr));
    Emit(h, &out);
  }
  if (g_rich && Chance(1, 10, "p.prevoid")) { N v = Leaf(nullptr, 0xEC, Bytes(Range(1, 200, "p.vl"), 0)); FixLen(v); Emit(v, &out); }

  // ---- Segment tree
  N seg = Master(nullptr, 0x18538067);
  d.seg_unknown = o.unknown_sizes && Chance(1, 4, "p.segunk");
  seg->unknown = d.seg_unknown;
  if (!seg->size_len && Chance(1, 2, "p.seg8")) seg->size_len = 8;
  if (seg->unknown && !seg->size_len) seg->size_len = 8;

  // Info
  N info = std::make_shared<Node>(); info->id = 0x1549A966; info->master = true;
  {
    static const uint64_t scales[] = {1000000, 1000000, 1000000, 1, 100000, 999999, 1000000000};
    ll dur = -1;
    if (Chance(5, 6, "p.scale?")) { d.scale = scales[Draw(7, "p.scale")]; if (o.wild) d.scale = 1 + Magnitude(0x7ffffffffffffffeULL, "p.wscale"); UInt(info, 0x2AD7B1, d.scale); }
    std::string mux = "-", wr = "-", ti = "-";
    VoidIn(info);
    if (Chance(1, 2, "p.dur?")) { double v = Chance(1, 2, "p.durfrac") ? Range(0, 4000000, "p.dur") / 8.0 : (double)Range(0, 100000, "p.dur"); Float(info, 0x4489, v); double ns = g_last_float * (double)d.scale; dur = ns < 9e18 ? (ll)ns : -1; }
    if (Chance(1, 3, "p.date")) Leaf(info, 0x4461, UBytes(Draw(1ULL << 40, "p.d"), 8));
    if (Chance(1, 2, "p.mux")) Str(info, 0x4D80, mux = Text("p.t"));
    if (Chance(1, 2, "p.wr")) Str(info, 0x5741, wr = Text("p.t"));
    if (Chance(1, 4, "p.title")) Str(info, 0x7BA9, ti = Text("p.t"));
    VoidIn(info);
    m(Fmt("info scale=%llu dur=%lld mux=%s wr=%s title=%s", (ull)d.scale, dur, mux.c_str(), wr.c_str(), ti.c_str()));
  }
  // Tracks
  N trk = std::make_shared<Node>(); trk->id = 0x1654AE6B; trk->master = true;
  std::vector<N> encs;
  {
    int nt = (int)Range(1, 4, "p.ntracks");
    std::vector<std::string> tl;
    std::set<int> used;
    for (int i = 0; i < nt; ++i) {
      PTrack t;
      static const int types[] = {1, 2, 1, 2, 0x11, 0x21, 0x12};
      t.type = types[Draw(7, "p.ttype")];
      t.number = i + 1;
      if (Chance(1, 4, "p.tnum?")) t.number = (int)Range(1, 127, "p.tnum");
      while (used.count(t.number)) t.number = t.number % 127 + 1;
      used.insert(t.number);
      d.tracks.push_back(t);
      VoidIn(trk);
      N e = Master(trk, 0xAE);
      ull uid = 0, dd = 0, cd = 0, pr = 0; int lac = 1;
      std::string name = "-", lang = "-", codec = "-", cname = "-"; Bytes priv;
      UInt(e, 0xD7, t.number);
      if (Chance(5, 6, "p.uid?")) { uid = 1 + Magnitude(0xfffffffffffffffeULL, "p.uid"); UInt(e, 0x73C5, uid); }
      UInt(e, 0x83, t.type);
      VoidIn(e);
      if (Chance(1, 4, "p.name?")) Str(e, 0x536E, name = Text("p.t"));
      if (Chance(1, 4, "p.lang?")) Str(e, 0x22B59C, lang = Text("p.t"));
      if (Chance(3, 4, "p.codec?")) Str(e, 0x86, codec = t.type == 1 ? "V_VP9" : t.type == 2 ? "A_OPUS" : "D_WEBVTT/SUBTITLES");
      if (Chance(1, 6, "p.cname?")) Str(e, 0x258688, cname = Text("p.t"));
      if (Chance(1, 4, "p.priv?")) { priv = MakePayload(Draw(1000, "p.ps"), Range(1, 400, "p.pl")); Leaf(e, 0x63A2, priv); }
      if (Chance(1, 4, "p.dd?")) UInt(e, 0x23E383, dd = Magnitude(1ULL << 40, "p.dd"));
      if (Chance(1, 4, "p.cd?")) UInt(e, 0x56AA, cd = Magnitude(1ULL << 40, "p.cd"));
      if (Chance(1, 4, "p.pr?")) UInt(e, 0x56BB, pr = Magnitude(1ULL << 40, "p.pr"));
      if (Chance(1, 3, "p.lac?")) UInt(e, 0x9C, lac = (int)Draw(2, "p.lac"));
      if (Chance(1, 4, "p.flags")) { UInt(e, 0xB9, 1); UInt(e, 0x88, 1); UInt(e, 0x55AA, 0); }
      std::string enc;
      if ((t.type == 1 || t.type == 2) && o.meta && Chance(1, 5, "p.enc?")) {
        N ces = Master(e, 0x6D80);
        encs.push_back(ces);
        int n = (int)Range(1, 2, "p.nenc");
        for (int k = 0; k < n; ++k) {
          N ce = Master(ces, 0x6240);
          ull ord = 0, sc = 1, ty = 0;
          if (Chance(1, 2, "p.eo")) UInt(ce, 0x5031, ord = Draw(4, "p.v"));
          if (Chance(1, 2, "p.es")) UInt(ce, 0x5032, sc = Range(1, 3, "p.v"));
          if (Chance(1, 2, "p.et")) UInt(ce, 0x5033, ty = Draw(2, "p.v"));
          enc += Fmt(" enc(%llu,%llu,%llu", ord, sc, ty);
          int what = (int)Range(1, 3, "p.ew");
          if (what & 1) {
            N x = Master(ce, 0x5034); ull algo = Range(0, 3, "p.ca"); UInt(x, 0x4254, algo);
            Bytes st;
            if (Chance(1, 2, "p.cs")) { st = MakePayload(Draw(100, "p.ps"), Range(1, 20, "p.pl")); Leaf(x, 0x4255, st); }
            enc += Fmt(" comp %llu %s", algo, HexOf(st).c_str());
          }
          if (what & 2) {
            N x = Master(ce, 0x5035); UInt(x, 0x47E1, 5);
            Bytes key, sig, sk; ull sa = 0, sh = 0;
            if (Chance(3, 4, "p.ek")) { key = MakePayload(Draw(100, "p.ps"), Range(1, 20, "p.pl")); Leaf(x, 0x47E2, key); }
            if (Chance(1, 4, "p.esg")) { sig = MakePayload(Draw(100, "p.ps"), Range(1, 20, "p.pl")); Leaf(x, 0x47E3, sig); }
            if (Chance(1, 4, "p.esk")) { sk = MakePayload(Draw(100, "p.ps"), Range(1, 20, "p.pl")); Leaf(x, 0x47E4, sk); }
            if (Chance(1, 4, "p.esa")) UInt(x, 0x47E5, sa = Range(1, 3, "p.v"));
            if (Chance(1, 4, "p.esh")) UInt(x, 0x47E6, sh = Range(1, 3, "p.v"));
            if (Chance(1, 2, "p.eaes")) { N a = Master(x, 0x47E7); UInt(a, 0x47E8, 1); }
            enc += Fmt(" crypt 5 %s %s %s %llu %llu 1", HexOf(key).c_str(), HexOf(sig).c_str(), HexOf(sk).c_str(), sa, sh);
          }
          enc += ")";
        }
      }
      std::string av;
      if (t.type == 1) {
        N v = Master(e, 0xE0);
        ll w = (ll)Range(1, 5000, "p.w"), h = (ll)Range(1, 5000, "p.h"), dw = 0, dh = 0, du = 0, st = 0; double fr = 0; std::string cs = "-", colour = " nocolour", proj = " noproj";
        UInt(v, 0xB0, w);
        UInt(v, 0xBA, h);
        if (Chance(1, 4, "p.dw")) UInt(v, 0x54B0, dw = (ll)Range(1, 5000, "p.v"));
        if (Chance(1, 4, "p.dh")) UInt(v, 0x54BA, dh = (ll)Range(1, 5000, "p.v"));
        if (Chance(1, 6, "p.du")) UInt(v, 0x54B2, du = (ll)Range(0, 3, "p.v"));
        if (Chance(1, 6, "p.st")) UInt(v, 0x53B8, st = (ll)Range(0, 14, "p.v"));
        VoidIn(v);
        if (Chance(1, 6, "p.fr")) { Float(v, 0x2383E3, Range(1, 480, "p.v") / 4.0); fr = g_last_float; }
        if (Chance(1, 8, "p.cspace")) Str(v, 0x2EB524, cs = "YV12");
        if (o.meta && Chance(1, 4, "p.colour")) {
          N c = Master(v, 0x55B0);
          // order of the fields observed: 55B1..55BD
          ll val[13]; colour = " colour(";
          for (int k = 0; k < 13; ++k) { val[k] = -1; if (Chance(1, 2, "p.cf")) UInt(c, 0x55B1 + k, val[k] = (ll)Magnitude(1000000, "p.v")); }
          for (int k = 0; k < 13; ++k) colour += Fmt("%lld ", val[k] < 0 ? 0x7fffffffffffffffLL : val[k]);
          if (Chance(1, 2, "p.mm")) {
            N mm = Master(c, 0x55D0);
            float f[10]; bool has[10];
            for (int k = 0; k < 10; ++k) {
              f[k] = 0; has[k] = Chance(1, 2, "p.mf");
              if (!has[k]) continue;
              double x = k < 8 ? Range(0, 1000, "p.v") / 1000.0 : k == 8 ? (double)Range(0, 9999, "p.v") : Range(0, 999, "p.v") * 1.0;
              Float(mm, 0x55D1 + k, x); f[k] = (float)g_last_float;
            }
            colour += "mm";
            for (int k = 0; k < 4; ++k) colour += has[2 * k] || has[2 * k + 1] ? Fmt(" %.9g,%.9g", f[2 * k], f[2 * k + 1]) : std::string(" -");
            colour += has[8] ? Fmt(" %.9g", f[8]) : std::string(" -");
            colour += has[9] ? Fmt(" %.9g", f[9]) : std::string(" -");
          }
          colour += ")";
        }
        if (o.meta && Chance(1, 5, "p.proj")) {
          N p = Master(v, 0x7670);
          int ty = -1; Bytes pd; bool hp = false; float y[3]; bool hy[3];
          if (Chance(3, 4, "p.pt")) UInt(p, 0x7671, (ull)(ty = Chance(1, 8, "p.pun") ? 4 + (int)Magnitude(1000000, "p.puv") : (int)Draw(4, "p.v")));
          if (Chance(1, 2, "p.pp")) { hp = true; pd = MakePayload(Draw(100, "p.ps"), Range(1, 40, "p.pl")); Leaf(p, 0x7672, pd); }
          for (int k = 0; k < 3; ++k) { hy[k] = Chance(1, 2, "p.py"); if (hy[k]) { Float(p, 0x7673 + k, (double)Range(0, 360, "p.v") - 180.0 + 0.25); y[k] = (float)g_last_float; } }
          proj = Fmt(" proj(%d %s", ty, hp ? HexOf(pd).c_str() : "-");
          for (int k = 0; k < 3; ++k) proj += hy[k] ? Fmt(" %.9g", y[k]) : std::string(" -");
          proj += ")";
        }
        av = Fmt(" video %lldx%lld disp %lldx%lld u%lld st%lld fr%.17g cs=%s%s%s", w, h, dw ? dw : w, dh ? dh : h, du, st, fr, cs.c_str(), colour.c_str(), proj.c_str());
      } else if (t.type == 2) {
        N a = Master(e, 0xE1);
        double r = 8000; ll ch = 1, bd = 0;
        if (Chance(3, 4, "p.sr")) { Float(a, 0xB5, (double)Range(1, 192000, "p.v")); r = g_last_float; }
        if (Chance(1, 3, "p.osr")) Float(a, 0x78B5, 48000.0);
        if (Chance(3, 4, "p.ch")) UInt(a, 0x9F, ch = (ll)Range(1, 8, "p.v"));
        if (Chance(1, 2, "p.bd")) UInt(a, 0x6264, bd = (ll)Range(1, 64, "p.v"));
        if (!a->kids.size()) UInt(a, 0x9F, 1);
        av = Fmt(" audio %.17g ch%lld bd%lld", r, ch, bd);
      }
      tl.push_back(Fmt("track %d type=%d uid=%llu name=%s lang=%s codec=%s cname=%s priv=%s lacing=%d dd=%llu cd=%llu pr=%llu%s%s", t.number, t.type, uid,
                       name.c_str(), lang.c_str(), codec.c_str(), cname.c_str(), HexOf(priv).c_str(), lac, dd, cd, pr, av.c_str(), enc.c_str()));
    }
    for (auto& l : tl) m(l);
  }
  // Chapters, Tags
  N chap, tags;
  if (o.meta && Chance(1, 3, "p.chap?")) {
    chap = std::make_shared<Node>(); chap->id = 0x1043A770; chap->master = true;
    int ne = (int)Range(1, 2, "p.ned");
    for (int i = 0; i < ne; ++i) {
      VoidIn(chap);
      N ed = Master(chap, 0x45B9);
      std::string line = "edition";
      int na = (int)Range(1, 5, "p.nat");
      for (int k = 0; k < na; ++k) {
        N a = Master(ed, 0xB6);
        ull uid = 1 + Magnitude(0xfffffffffffffffeULL, "p.cuid"); ll st = -1, en = -1; std::string su = "-";
        if (Chance(1, 3, "p.su")) Str(a, 0x5654, su = Text("p.t"));
        Leaf(a, 0x73C4, UBytes(uid, 8));
        if (Chance(5, 6, "p.cst")) UInt(a, 0x91, st = (ll)Magnitude(1000000, "p.v"));
        if (Chance(1, 2, "p.cen")) UInt(a, 0x92, en = (ll)Magnitude(1000000, "p.v"));
        line += Fmt(" atom(%llu %s %lld %lld", uid, su.c_str(), st, en);
        int nd = (int)Draw(3, "p.nds");
        for (int x = 0; x < nd; ++x) {
          N ds = Master(a, 0x80);
          std::string s = "-", l = "-", c = "-";
          Str(ds, 0x85, s = Text("p.t"));
          if (Chance(1, 2, "p.dl")) Str(ds, 0x437C, l = Text("p.t"));
          if (Chance(1, 2, "p.dc")) Str(ds, 0x437E, c = Text("p.t"));
          line += Fmt(" disp(%s,%s,%s)", s.c_str(), l.c_str(), c.c_str());
        }
        line += ")";
      }
      m(line);
    }
  }
  if (o.meta && Chance(1, 3, "p.tags?")) {
    tags = std::make_shared<Node>(); tags->id = 0x1254C367; tags->master = true;
    int n = (int)Range(1, 3, "p.ntag");
    for (int i = 0; i < n; ++i) {
      VoidIn(tags);
      N t = Master(tags, 0x7373);
      std::string line = "tag";
      int ns = (int)Range(1, 5, "p.nst");
      for (int k = 0; k < ns; ++k) {
        N s = Master(t, 0x67C8);
        std::string a = "-", b = "-";
        Str(s, 0x45A3, a = Text("p.t"));
        if (Chance(3, 4, "p.ts")) Str(s, 0x4487, b = Text("p.t"));
        line += Fmt(" (%s=%s)", a.c_str(), b.c_str());
      }
      m(line);
    }
  }

  // ---- clusters
  std::vector<N> cl;
  std::vector<std::vector<std::pair<N, PBlock>>> cb;   // node of Block/SimpleBlock payload
  {
    if (o.huge) g_rich = false;
    int nc = (int)Range(0, o.max_clusters, "p.nclusters");
    if (o.huge == 2) nc = (int)Range(2000, 2200, "p.nclhuge");
    if (o.huge == 1 && nc == 0) nc = 1;
    const int huge_at = o.huge == 1 ? (int)Draw(nc, "p.hugeat") : -1;
    if (nc == 0 && o.max_clusters > 1 && !Chance(1, 8, "p.nocl")) nc = 1;
    uint64_t tc = Chance(1, 2, "p.tc0") ? 0 : Magnitude(100000, "p.tc0v");
    if (o.wild) tc = Magnitude(0x7ffffffffffff000ULL, "p.wtc");
    for (int i = 0; i < nc; ++i) {
      N c = std::make_shared<Node>(); c->id = 0x1F43B675; c->master = true;
      if (i == huge_at || (o.huge == 2 && i >= 4)) {   // very many small blocks or clusters, no choices
        UInt(c, 0xE7, tc);
        std::vector<std::pair<N, PBlock>> bl;
        const int nb = i == huge_at ? (int)Range(1000, 2300, "p.nbhuge") : 1;
        int16_t rel = 0;
        for (int k = 0; k < nb; ++k) {
          PBlock b; b.cluster = i; b.track = d.tracks[(i + k) % d.tracks.size()].number;
          b.rel = rel; rel = (int16_t)(rel + 1 + k % 3); b.key = k % 5 == 0;
          Bytes p;
          PutSize(&p, (uint64_t)b.track, b.track >= 127 ? 2 : 1);
          p.push_back((uint8_t)((uint16_t)b.rel >> 8)); p.push_back((uint8_t)b.rel);
          p.push_back(b.key ? 0x80 : 0);
          b.frames.push_back(PFrame{p.size(), 2});
          p.push_back((uint8_t)(i + k)); p.push_back((uint8_t)((i + k) >> 8));
          bl.push_back({Leaf(c, 0xA3, p), b});
        }
        cl.push_back(c); cb.push_back(bl);
        tc += (uint64_t)rel + 1;
        continue;
      }
      if (g_rich && Chance(1, 4, "p.csl")) c->size_len = (int)Range(1, 8, "p.sl");
      if (o.unknown_sizes && Chance(1, 4, "p.cunk")) { c->unknown = true; c->size_len = Chance(1, 4, "p.c1") ? (int)Range(1, 8, "p.sl") : 8; }
      if (Chance(1, 10, "p.cv0")) Leaf(c, 0xEC, Bytes(Range(1, 30, "p.vl"), 0));
      UInt(c, 0xE7, tc);
      if (Chance(1, 6, "p.cps")) UInt(c, 0xAB, Magnitude(100000, "p.v"));
      std::vector<std::pair<N, PBlock>> bl;
      int nb = (int)Range(1, o.max_blocks, "p.nblocks");
      if (o.empty_clusters && Chance(1, 10, "p.cempty")) nb = 0;
      int16_t rel = 0;
      for (int k = 0; k < nb; ++k) {
        Noise(c, "p.cnoise");
        PBlock b;
        b.cluster = i;
        b.track = d.tracks[Draw(d.tracks.size(), "p.btrack")].number;
        if (o.tidy_times) { rel = (int16_t)(rel + Draw(60, "p.brel")); b.rel = rel; }
        else {
          switch (Draw(8, "p.bk")) {
            case 0: b.rel = (int16_t)Draw(65536, "p.brw"); break;
            case 1: b.rel = rel; break;
            default: rel = (int16_t)(rel + Draw(100, "p.brel")); b.rel = rel;
          }
        }
        b.group = Chance(1, 3, "p.bg");
        b.invisible = Chance(1, 8, "p.binv");
        bool flag_key = Chance(1, 2, "p.bkey");
        int nf = 1;
        if (o.lacing && Chance(1, 4, "p.blace")) {
          b.lacing = (int)Range(1, 3, "p.blk");
          nf = (int)Range(b.lacing == 3 ? 2 : 1, 6, "p.bnf");   // a one-frame EBML lace is degenerate
          if (Chance(1, 20, "p.bnfbig")) nf = (int)Range(7, 256, "p.bnfb");
        }
        std::vector<uint64_t> sz;
        for (int x = 0; x < nf; ++x) {
          uint64_t s = Chance(1, 8, "p.fszb") ? Range(200, 3000, "p.fsz") : Range(1, 60, "p.fsz");
          if (Chance(1, o.lacing ? 500 : 30, "p.fhuge")) s = Range(3000, o.lacing ? 140000 : 70000, "p.fszh");
          if (b.lacing == 2 && x > 0) s = sz[0];
          sz.push_back(s);
        }
        Bytes p;
        // track number as vint
        if (g_rich && Chance(1, 12, "p.tvlong")) PutSize(&p, (uint64_t)b.track, (int)Range(2, 8, "p.tvl"));
        else PutSize(&p, (uint64_t)b.track, b.track >= 127 ? 2 : 1);
        p.push_back((uint8_t)((uint16_t)b.rel >> 8)); p.push_back((uint8_t)b.rel);
        uint8_t fl = (uint8_t)((b.lacing << 1) | (b.invisible ? 8 : 0));
        if (flag_key && (!b.group || Chance(1, 4, "p.bgkey"))) fl |= 0x80;
        p.push_back(fl);
        // library numbering: 1 xiph, 2 fixed, 3 ebml (the two flag bits)
        if (b.lacing) {
          p.push_back((uint8_t)(nf - 1));
          if (b.lacing == 1) {
            for (int x = 0; x + 1 < nf; ++x) { uint64_t s = sz[x]; while (s >= 255) { p.push_back(255); s -= 255; } p.push_back((uint8_t)s); }
          } else if (b.lacing == 3) {
            for (int x = 0; x + 1 < nf; ++x) {
              if (x == 0) { int n = MinSizeLen(sz[0]); if (Chance(1, 8, "p.elong")) n = (int)Range(n, 8, "p.el"); PutSize(&p, sz[0], n); continue; }
              int64_t df = (int64_t)sz[x] - (int64_t)sz[x - 1];
              int n = 1;
              while (df < -((1LL << (7 * n - 1)) - 1) || df > (1LL << (7 * n - 1)) - 1) ++n;
              if (Chance(1, 8, "p.elong")) n = (int)Range(n, 8, "p.el");
              PutSize(&p, (uint64_t)(df + ((1LL << (7 * n - 1)) - 1)), n);
            }
          }
        }
        uint64_t off = p.size();
        for (int x = 0; x < nf; ++x) {
          b.frames.push_back(PFrame{off, sz[x]});
          Bytes f = MakePayload(Draw(100000, "p.fseed"), sz[x]);
          p.insert(p.end(), f.begin(), f.end());
          off += sz[x];
        }
        N bn;
        if (!b.group) {
          b.key = flag_key;
          bn = Leaf(c, 0xA3, p);
        } else {
          N g = Master(c, 0xA0);
          VoidIn(g);
          auto extras = [&]() {
            if (Chance(1, 4, "p.gdur")) UInt(g, 0x9B, (ull)(b.dur = (ll)Magnitude(100000, "p.v")));
            if (Chance(1, 3, "p.gref")) { ll t = (ll)Range(0, 2000, "p.gr") - 1500; SInt(g, 0xFB, t); if (t <= 0) b.prev = t; else b.next = t; }
            if (Chance(1, 6, "p.gref2")) { ll t = (ll)Range(1, 2000, "p.gr"); SInt(g, 0xFB, t); b.next = t; }
            if (Chance(1, 6, "p.gdp")) { ll t = (ll)Range(0, 2000000, "p.gr") - 1000000; SInt(g, 0x75A2, t); b.discard = t; }
            if (Chance(1, 8, "p.gadd")) { N ba = Master(g, 0x75A1); N bm = Master(ba, 0xA6); UInt(bm, 0xEE, 4); Leaf(bm, 0xA5, MakePayload(Draw(100, "p.ps"), Range(1, 40, "p.pl"))); }
          };
          bool before = Chance(1, 3, "p.gbefore");
          if (before) extras();
          bn = Leaf(g, 0xA1, p);
          if (!before) extras();
          b.key = b.prev > 0 && b.next <= 0;
        }
        bl.push_back({bn, b});
      }
      Noise(c, "p.cnoise");
      if (c->unknown && c->size_len < 1) c->size_len = 8;
      cl.push_back(c);
      cb.push_back(bl);
      uint64_t add = o.tidy_times ? (uint64_t)rel + Range(1, 2000, "p.tcadd") : Draw(3000, "p.tcadd");
      tc += add;
    }
  }

  // ---- layout of the segment
  N seekhead, cues;
  std::vector<std::pair<uint32_t, N>> seek_targets;
  std::vector<std::pair<N, N>> seek_pos_nodes;   // SeekPosition leaf -> target
  if (Chance(1, 2, "p.seekhead")) { seekhead = std::make_shared<Node>(); seekhead->id = 0x114D9B74; seekhead->master = true; }
  d.has_cues = o.cues && !cl.empty() && Chance(1, 2, "p.cues?");
  if (o.huge && o.cues && !cl.empty()) d.has_cues = true;
  d.cues_front = d.has_cues && Chance(1, 3, "p.cuesfront");
  struct CuePlan { uint64_t time; std::vector<std::pair<int, std::pair<int, int>>> tp; };   // track -> (cluster, block index)
  std::vector<CuePlan> cps;
  std::vector<std::pair<N, int>> cue_pos_nodes;
  std::vector<std::vector<bool>> cue_has_block;
  std::vector<std::pair<int, int>> cue_num;   // number written, block it leads to
  if (d.has_cues) {
    cues = std::make_shared<Node>(); cues->id = 0x1C53BB6B; cues->master = true;
    uint64_t last = 0; bool any = false;
    for (size_t i = 0; i < cl.size(); ++i) {
      uint64_t ctc = 0;
      for (auto& k : cl[i]->kids) if (k->id == 0xE7) { for (uint8_t x : k->data) ctc = ctc << 8 | x; }
      for (size_t k = 0; k < cb[i].size(); ++k) {
        if (o.huge ? false : !Chance(1, 3, "p.cuehere")) continue;
        const PBlock& b = cb[i][k].second;
        int64_t t = (int64_t)ctc + b.rel;
        if (t < 0) continue;
        if (any && (uint64_t)t < last) continue;
        if (any && (uint64_t)t == last) { if (!cps.empty()) { bool dup = false; for (auto& x : cps.back().tp) dup |= x.first == b.track; if (!dup) cps.back().tp.push_back({b.track, {(int)i, (int)k}}); } continue; }
        CuePlan cp; cp.time = (uint64_t)t; cp.tp.push_back({b.track, {(int)i, (int)k}});
        cps.push_back(cp);
        last = (uint64_t)t; any = true;
      }
    }
    if (cps.empty()) { d.has_cues = d.cues_front = false; cues = nullptr; }
    for (auto& cp : cps) {
      VoidIn(cues);
      N c = Master(cues, 0xBB);
      UInt(c, 0xB3, cp.time);
      std::vector<bool> hb;
      for (auto& tp : cp.tp) {
        VoidIn(c);
        N t = Master(c, 0xB7);
        UInt(t, 0xF7, tp.first);
        N pn = Leaf(t, 0xF1, UBytes(0, o.huge ? 4 : (int)Range(4, 8, "p.cpl")));
        cue_pos_nodes.push_back({pn, tp.second.first});
        // the block number may only be left out when the default (1) is right
        bool has = o.huge || !(tp.second.second == 0 && Chance(1, 2, "p.cbn"));
        int num = tp.second.second + 1, lands = tp.second.second;
        const auto& bl = cb[tp.second.first];
        if (o.tidy_times && !o.huge && Chance(1, 5, "p.cbnwrong")) {
          // A number that is off (or left out): the block is found by track and time.
          auto same = [&](int k) { return bl[k].second.track == tp.first && bl[k].second.rel == bl[tp.second.second].second.rel; };
          int type = 0, first = 0;
          for (auto& x : d.tracks) if (x.number == tp.first) type = x.type;
          while (!same(first)) ++first;
          const int w = (int)Draw(bl.size(), "p.cbnw");
          if (type == 2 || (type == 1 && bl[first].second.key)) {
            num = w + 1; has = !(w == 0 && Chance(1, 2, "p.cbn"));
            lands = same(w) ? w : first;
          }
        }
        if (has) UInt(t, 0x5378, (ull)num);
        cue_num.push_back({num, lands});
        hb.push_back(has);
      }
      cue_has_block.push_back(hb);
    }
  }
  std::vector<N> front;
  if (chap) front.push_back(chap);
  if (tags) front.push_back(tags);
  front.push_back(info);
  front.push_back(trk);
  if (d.cues_front) front.push_back(cues);
  for (size_t i = front.size(); i > 1; --i) if (g_rich) std::swap(front[i - 1], front[Draw(i, "p.shuf")]);
  if (seekhead) {
    std::vector<N> tg = front;
    if (cues && !d.cues_front) tg.push_back(cues);
    for (auto& t : tg) {
      VoidIn(seekhead);
      N s = Master(seekhead, 0x4DBB);
      Leaf(s, 0x53AB, UBytes(t->id, IdLen(t->id)));
      N p = Leaf(s, 0x53AC, UBytes(0, (int)Range(4, 8, "p.spl")));
      seek_pos_nodes.push_back({p, t});
    }
    front.insert(front.begin() + (g_rich ? Draw(front.size() + 1, "p.shpos") : 0), seekhead);
  }
  for (auto& f : front) { Noise(seg, "p.snoise"); seg->kids.push_back(f); }
  Noise(seg, "p.snoise");
  for (size_t i = 0; i < cl.size(); ++i) {
    seg->kids.push_back(cl[i]);
    // an element between clusters (only after one of known size: it would
    // otherwise belong to the cluster)
    if (!cl[i]->unknown) Noise(seg, "p.betw");
  }
  if (cues && !d.cues_front) seg->kids.push_back(cues);
  if (o.trailing && (cl.empty() || !cl.back()->unknown || (cues && !d.cues_front))) Noise(seg, "p.strail");
  if (o.tree_damage) MutateTree(seg, o.tree_damage);
  FixLen(seg);
  // An unknown-size field needs no minimum; restore short ones.
  // Two passes: the position fields have fixed widths, so the layout is stable.
  uint64_t base = out.size();
  Bytes tmp = out;
  Emit(seg, &tmp);
  for (auto& sp : seek_pos_nodes) if (sp.first->data.size() <= 8) sp.first->data = UBytes(sp.second->pos - seg->body, (int)sp.first->data.size());
  for (auto& cp : cue_pos_nodes) if (cp.first->data.size() <= 8) cp.first->data = UBytes(cl[cp.second]->pos - seg->body, (int)cp.first->data.size());
  Emit(seg, &out);
  (void)base;
  if (o.tree_damage) { d.b = out; return d; }      // bytes only
  d.seg_body = seg->body; d.seg_pos = seg->pos;
  for (auto& e : encs) d.enc_ranges.push_back({e->pos, e->end});
  if (seekhead) {
    std::string line = "seekhead";
    std::string vl;
    for (auto& k : seekhead->kids) {
      if (k->id == 0x4DBB) {
        uint64_t id = 0, pos = 0;
        for (uint8_t x : k->kids[0]->data) id = id << 8 | x;
        for (uint8_t x : k->kids[1]->data) pos = pos << 8 | x;
        line += Fmt(" (%llx@%llu el %llu+%llu)", (ull)id, (ull)pos, (ull)k->pos, (ull)(k->end - k->pos));
      } else if (k->id == 0xEC) vl += Fmt(" void %llu+%llu", (ull)k->pos, (ull)(k->end - k->pos));
    }
    m(line + vl);
  }
  std::vector<int> cmap(cl.size(), -1);
  int bi_base = 0;
  std::vector<std::vector<int>> bidx(cl.size());
  uint64_t prev_tc = 0; bool first = true;
  for (size_t i = 0; i < cl.size(); ++i) {
    if (d.first_cluster == 0) d.first_cluster = cl[i]->pos;
    d.cluster_starts.push_back(cl[i]->pos - seg->body);
    if (cb[i].empty()) continue;
    PCluster c;
    c.pos = cl[i]->pos - seg->body; c.end = cl[i]->end; c.body = cl[i]->body; c.unknown = cl[i]->unknown;
    for (auto& k : cl[i]->kids) if (k->id == 0xE7) for (uint8_t x : k->data) c.tc = c.tc << 8 | x;
    if (!first && c.tc <= prev_tc) d.in_order = false;
    first = false; prev_tc = c.tc;
    cmap[i] = (int)d.clusters.size();
    for (size_t k = 0; k < cb[i].size(); ++k) {
      PBlock b = cb[i][k].second;
      b.cluster = cmap[i]; b.index = (int)k;
      const N& n = cb[i][k].first;
      b.elpos = n->pos; b.elend = n->end;
      for (auto& f : b.frames) f.pos += n->body;
      if ((int64_t)c.tc + b.rel < 0) d.in_order = false;
      c.blocks.push_back((int)d.blocks.size());
      d.blocks.push_back(b);
      ++bi_base;
    }
    d.clusters.push_back(c);
  }
  if (cues) {
    d.cues_pos = cues->pos; d.cues_end = cues->end;
    size_t i = 0, cn = 0;
    for (auto& k : cues->kids) {
      if (k->id != 0xBB) continue;
      PCue c; c.time = cps[i].time; c.pos = k->pos; c.size = k->end - k->pos;
      for (size_t x = 0; x < cps[i].tp.size(); ++x) {
        auto& tp = cps[i].tp[x];
        PCuePos p; p.track = tp.first; p.pos = cl[tp.second.first]->pos - seg->body;
        p.block = (uint64_t)cue_num[cn].first; p.has_block = cue_has_block[i][x];
        p.block_idx = d.clusters[cmap[tp.second.first]].blocks[cue_num[cn].second];
        ++cn;
        c.tp.push_back(p);
      }
      d.cues.push_back(c);
      ++i;
    }
  }
  d.b = out;
  return d;
}

}  // namespace sim
