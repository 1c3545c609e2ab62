#include "wdoc.h"

#include <algorithm>

namespace sim {

// ----------------------------------------------------------------- schema --
static Field U(uint32_t id, const char* n, uint64_t d = 0) { return {id, T::kUInt, false, n, d, "", 0}; }
static Field F(uint32_t id, const char* n, double d = 0) { return {id, T::kFloat, false, n, 0, "", d}; }
static Field S(uint32_t id, const char* n, const char* d = "") { return {id, T::kString, false, n, 0, d, 0}; }
static Field B(uint32_t id, const char* n) { return {id, T::kBinary, false, n, 0, "", 0}; }
static Field O(uint32_t id, const char* n, int d) { return {id, T::kBool, false, n, (uint64_t)d, "", 0}; }
static Field M(uint32_t id, const char* n, bool rep = false) { return {id, T::kMaster, rep, n, 0, "", 0}; }
static Field X(uint32_t id, T t, const char* n, bool rep = false) { return {id, t, rep, n, 0, "", 0}; }
static Field Rep(Field f) { f.rep = true; return f; }

const std::vector<Def>& AllDefs() {
  static const std::vector<Def>* d = new std::vector<Def>{
    {kIdEbml, "Ebml", Notify::kEbml, true, {U(0x4286, "ebml_version", 1), U(0x42F7, "ebml_read_version", 1),
       U(0x42F2, "ebml_max_id_length", 4), U(0x42F3, "ebml_max_size_length", 8), S(0x4282, "doc_type", "matroska"),
       U(0x4287, "doc_type_version", 1), U(0x4285, "doc_type_read_version", 1)}},
    {kIdSegment, "Segment", Notify::kSegment, false, {M(0x1043A770, "chapters", true), M(kIdCluster, "cluster", true),
       M(0x1C53BB6B, "cues", true), M(0x1549A966, "info", true), M(0x114D9B74, "seekhead", true),
       M(0x1254C367, "tags", true), M(0x1654AE6B, "tracks", true)}},
    {0x114D9B74, "SeekHead", Notify::kNone, false, {M(0x4DBB, "seek", true)}},
    {0x4DBB, "Seek", Notify::kSeek, true, {X(0x53AB, T::kId, "id"), U(0x53AC, "position")}},
    {0x1549A966, "Info", Notify::kInfo, true, {U(0x2AD7B1, "timecode_scale", 1000000), F(0x4489, "duration"),
       X(0x4461, T::kDate, "date_utc"), S(0x7BA9, "title"), S(0x4D80, "muxing_app"), S(0x5741, "writing_app")}},
    {kIdCluster, "Cluster", Notify::kCluster, true, {U(0xE7, "timecode"), U(0xAB, "previous_size"),
       X(kIdSimpleBlock, T::kSimpleBlock, "simple_blocks", true), M(kIdBlockGroup, "block_groups", true)}},
    {kIdBlockGroup, "BlockGroup", Notify::kBlockGroup, true, {X(kIdBlock, T::kBlock, "block"),
       X(0xA2, T::kVirtual, "virtual_block"), M(0x75A1, "additions"), U(0x9B, "duration"),
       X(0xFB, T::kSInt, "references", true), X(0x75A2, T::kSInt, "discard_padding"), M(0x8E, "slices")}},
    {0x75A1, "BlockAdditions", Notify::kNone, true, {M(0xA6, "block_mores", true)}},
    {0xA6, "BlockMore", Notify::kNone, true, {U(0xEE, "id", 1), B(0xA5, "data")}},
    {0x8E, "Slices", Notify::kNone, true, {M(0xE8, "slices", true)}},
    {0xE8, "TimeSlice", Notify::kNone, true, {U(0xCC, "lace_number")}},
    {0x1654AE6B, "Tracks", Notify::kNone, false, {M(0xAE, "track", true)}},
    {0xAE, "TrackEntry", Notify::kTrackEntry, true, {U(0xD7, "track_number"), U(0x73C5, "track_uid"), U(0x83, "track_type"),
       O(0xB9, "is_enabled", 1), O(0x88, "is_default", 1), O(0x55AA, "is_forced", 0), O(0x9C, "uses_lacing", 1),
       U(0x23E383, "default_duration"), S(0x536E, "name"), S(0x22B59C, "language", "eng"), S(0x86, "codec_id"),
       B(0x63A2, "codec_private"), S(0x258688, "codec_name"), U(0x56AA, "codec_delay"), U(0x56BB, "seek_pre_roll"),
       M(0xE0, "video"), M(0xE1, "audio"), M(0x6D80, "content_encodings")}},
    {0xE0, "Video", Notify::kNone, true, {U(0x9A, "interlaced"), U(0x53B8, "stereo_mode"), U(0x53C0, "alpha_mode"),
       U(0xB0, "pixel_width"), U(0xBA, "pixel_height"), U(0x54AA, "pixel_crop_bottom"), U(0x54BB, "pixel_crop_top"),
       U(0x54CC, "pixel_crop_left"), U(0x54DD, "pixel_crop_right"), U(0x54B0, "display_width"),
       U(0x54BA, "display_height"), U(0x54B2, "display_unit"), U(0x54B3, "aspect_ratio_type"),
       F(0x2383E3, "frame_rate"), M(0x55B0, "colour"), M(0x7670, "projection")}},
    {0x55B0, "Colour", Notify::kNone, true, {U(0x55B1, "matrix_coefficients", 2), U(0x55B2, "bits_per_channel"),
       U(0x55B3, "chroma_subsampling_x"), U(0x55B4, "chroma_subsampling_y"), U(0x55B5, "cb_subsampling_x"),
       U(0x55B6, "cb_subsampling_y"), U(0x55B7, "chroma_siting_x"), U(0x55B8, "chroma_siting_y"), U(0x55B9, "range"),
       U(0x55BA, "transfer_characteristics", 2), U(0x55BB, "primaries", 2), U(0x55BC, "max_cll"), U(0x55BD, "max_fall"),
       M(0x55D0, "mastering_metadata")}},
    {0x55D0, "MasteringMetadata", Notify::kNone, true, {F(0x55D1, "rx"), F(0x55D2, "ry"), F(0x55D3, "gx"), F(0x55D4, "gy"),
       F(0x55D5, "bx"), F(0x55D6, "by"), F(0x55D7, "wx"), F(0x55D8, "wy"), F(0x55D9, "lmax"), F(0x55DA, "lmin")}},
    {0x7670, "Projection", Notify::kNone, true, {U(0x7671, "type"), B(0x7672, "private"), F(0x7673, "yaw"),
       F(0x7674, "pitch"), F(0x7675, "roll")}},
    {0xE1, "Audio", Notify::kNone, true, {F(0xB5, "sampling_frequency", 8000), F(0x78B5, "output_frequency", 8000),
       U(0x9F, "channels", 1), U(0x6264, "bit_depth")}},
    {0x6D80, "ContentEncodings", Notify::kNone, true, {M(0x6240, "encodings", true)}},
    {0x6240, "ContentEncoding", Notify::kNone, true, {U(0x5031, "order"), U(0x5032, "scope", 1), U(0x5033, "type"),
       M(0x5035, "encryption")}},
    {0x5035, "ContentEncryption", Notify::kNone, true, {U(0x47E1, "algorithm"), B(0x47E2, "key_id"), M(0x47E7, "aes_settings")}},
    {0x47E7, "ContentEncAesSettings", Notify::kNone, true, {U(0x47E8, "cipher_mode", 1)}},
    {0x1C53BB6B, "Cues", Notify::kNone, false, {M(0xBB, "cue_point", true)}},
    {0xBB, "CuePoint", Notify::kCuePoint, true, {U(0xB3, "time"), M(0xB7, "positions", true)}},
    {0xB7, "CueTrackPositions", Notify::kNone, true, {U(0xF7, "track"), U(0xF1, "cluster_position"),
       U(0xF0, "relative_position"), U(0xB2, "duration"), U(0x5378, "block_number", 1)}},
    {0x1043A770, "Chapters", Notify::kNone, false, {M(0x45B9, "edition", true)}},
    {0x45B9, "EditionEntry", Notify::kEdition, true, {M(0xB6, "atoms", true)}},
    {0xB6, "ChapterAtom", Notify::kNone, true, {U(0x73C4, "uid"), S(0x5654, "string_uid"), U(0x91, "time_start"),
       U(0x92, "time_end"), M(0x80, "displays", true), M(0xB6, "atoms", true)}},
    {0x80, "ChapterDisplay", Notify::kNone, true, {S(0x85, "string"), Rep(S(0x437C, "languages", "eng")),
       Rep(S(0x437E, "countries"))}},
    {0x1254C367, "Tags", Notify::kNone, false, {M(0x7373, "tag", true)}},
    {0x7373, "Tag", Notify::kTag, true, {M(0x63C0, "targets"), M(0x67C8, "tags", true)}},
    {0x63C0, "Targets", Notify::kNone, true, {U(0x68CA, "type_value", 50), S(0x63CA, "type"), Rep(U(0x63C5, "track_uids"))}},
    {0x67C8, "SimpleTag", Notify::kNone, true, {S(0x45A3, "name"), S(0x447A, "language", "und"), O(0x4484, "is_default", 1),
       S(0x4487, "string"), B(0x4485, "binary"), M(0x67C8, "tags", true)}},
  };
  return *d;
}
const Def* DefById(uint32_t id) {
  for (auto& d : AllDefs()) if (d.id == id) return &d;
  return nullptr;
}
bool IsChildOf(const Def* d, uint32_t id) { return id == kIdVoid || d->Find(id); }

std::string MetaStr(const Meta& m) {
  return Fmt("id=%x hs=%d size=%lld pos=%lld", m.id, (int)m.hs, (long long)m.size, (long long)m.pos);
}
const char* KName(K k) {
  static const char* n[] = {"ElementBegin", "Unknown", "Ebml", "Void", "SegmentBegin", "Seek", "Info",
    "ClusterBegin", "SimpleBlockBegin", "SimpleBlockEnd", "BlockGroupBegin", "BlockBegin", "BlockEnd",
    "BlockGroupEnd", "Frame", "ClusterEnd", "TrackEntry", "CuePoint", "Edition", "Tag", "SegmentEnd"};
  return n[(int)k];
}
std::string EventStr(const REvent& e) {
  std::string s = std::string(KName(e.k)) + " " + MetaStr(e.m);
  if (e.k == K::kFrame) s += Fmt(" frame=[%lld,+%lld]", (long long)e.fpos, (long long)e.fsize);
  if (!e.val.empty()) s += " " + (e.val.size() > 600 ? e.val.substr(0, 600) + "..." : e.val);
  return s;
}
bool SkipPlan::Skip(K k, const Meta& m) const {
  if (!den) return false;
  uint64_t x[4] = {seed, (uint64_t)k, m.id, m.pos};
  uint64_t h = Fnv(x, sizeof x);
  h ^= h >> 29;
  return h % den == 0;
}

std::string RU(uint64_t v) { return std::to_string(v); }
std::string RS(int64_t v) { return std::to_string(v); }
std::string RD(double v) { uint64_t u; memcpy(&u, &v, 8); return Fmt("f%016llx", (unsigned long long)u); }
std::string RBytes(const void* p, size_t n) {
  return Fmt("%zu:", n) + Hex((const uint8_t*)p, n, 12) + Fmt(":%016llx", (unsigned long long)Fnv(p, n));
}

// ------------------------------------------------------- reference parser --
namespace {
struct ParseEnd { int32_t code; };
enum { kEof = -3, kBadId = -1025, kBadSize = -1026, kIndef = -1027, kOverflow = -1028,
       kNoMem = -1029, kBadValue = -1030, kTooDeep = -1031 };

struct Val {  // value of a master: per field, list of (present, rendering)
  const Def* d;
  std::vector<std::vector<std::string>> v;
  std::vector<bool> zero;  // last occurrence had an empty body
  explicit Val(const Def* def) : d(def), v(def->fields.size()), zero(def->fields.size()) {}
};
std::string RenderDefault(const Field& f);
std::string Render(const Val& v) {
  std::string s = "{";
  for (size_t i = 0; i < v.d->fields.size(); ++i) {
    const Field& f = v.d->fields[i];
    s += f.name;
    s += '=';
    if (f.rep) {
      s += '[';
      if (v.v[i].empty() && f.ds[0]) s += "D:" + RenderDefault(f) + ",";
      for (auto& x : v.v[i]) s += x + ",";
      s += ']';
    } else if (v.v[i].empty()) {
      s += "D:" + RenderDefault(f);
    } else {
      s += v.v[i].back();
    }
    s += ';';
  }
  return s + "}";
}
std::string RenderDefault(const Field& f) {
  switch (f.type) {
    case T::kUInt: case T::kBool: return RU(f.du);
    case T::kId: return RU(0);
    case T::kSInt: case T::kDate: return RS(0);
    case T::kFloat: return RD(f.dd);
    case T::kString: return RBytes(f.ds, strlen(f.ds));
    case T::kBinary: return RBytes("", 0);
    case T::kMaster: return Render(Val(DefById(f.id)));
    case T::kSimpleBlock: case T::kBlock: return "{default}";
    case T::kVirtual: return "{default}";
    default: return "?";
  }
}

struct Ref {
  const Bytes& b;
  uint64_t base, pos, end;
  SkipPlan plan;
  std::vector<REvent> ev;
  bool huge = false;

  Ref(const Bytes& bytes, uint64_t bs, uint64_t st, const SkipPlan& p)
      : b(bytes), base(bs), pos(st), end(bytes.size()), plan(p) {}

  uint8_t Byte() { if (pos >= end) throw ParseEnd{kEof}; return b[pos++]; }
  void Emit(bool quiet, K k, const Meta& m, std::string val = "", uint64_t fp = 0, uint64_t fs = 0) {
    if (quiet) return;
    REvent e; e.k = k; e.m = m; e.val = std::move(val); e.fpos = fp; e.fsize = fs; e.at = pos;
    ev.push_back(std::move(e));
  }
  // Returns true if the element is to be skipped.
  bool Begin(bool quiet, K k, const Meta& m, std::string val = "") {
    if (quiet) return true;
    Emit(false, k, m, std::move(val));
    return plan.Skip(k, m);
  }
  Meta Header() {
    Meta m;
    m.pos = base + pos;
    uint64_t p0 = pos;
    uint8_t f = Byte();
    if (!(f & 0xf0)) throw ParseEnd{kBadId};
    int extra = f & 0x80 ? 0 : f & 0x40 ? 1 : f & 0x20 ? 2 : 3;
    m.id = f;
    while (extra--) m.id = m.id << 8 | Byte();
    int len;
    bool ones;
    m.size = VarInt(&len, &ones, kBadSize);
    if (ones) m.size = kUnkSize;
    m.hs = (uint32_t)(pos - p0);
    return m;
  }
  uint64_t VarInt(int* len, bool* ones, int err) {
    uint8_t f = Byte();
    if (!f) throw ParseEnd{err};
    int n = 1;
    while (!(f & (0x80 >> (n - 1)))) ++n;
    uint64_t v = f & (0xffu >> n);
    for (int i = 1; i < n; ++i) v = v << 8 | Byte();
    *len = n;
    *ones = v == (1ULL << (7 * n)) - 1;
    return v;
  }
  void SkipBytes(uint64_t n) {
    if (n > end - pos) { pos = end; throw ParseEnd{kEof}; }
    pos += n;
  }
  std::string Capture(uint64_t n) {
    if (n > end - pos) { pos = end; throw ParseEnd{kEof}; }
    std::string s = RBytes(b.data() + pos, n);
    pos += n;
    return s;
  }

  // Master with already-emitted ElementBegin. Returns true if it ended because
  // of a foreign element whose header is in *cached.
  struct MasterCtx {
    const Def* d; Meta m; bool quiet; bool started; bool skip; Val val;
    int depth;
  };

  // limit: absolute buffer offset cap (or ~0). chain: after-seek ancestors.
  bool Master(const Def* d, const Meta& m, uint64_t max_size, bool quiet, int depth,
              std::string* out, bool* stored, Meta* cached,
              const std::vector<uint32_t>* chain = nullptr, size_t ci = 0,
              const Meta* first = nullptr) {
    bool after_seek = chain != nullptr;
    Val val(d);
    bool skip = quiet;       // children produce no notifications
    bool started = after_seek;
    *stored = !quiet;
    if (d->notify == Notify::kSegment && !after_seek) {
      if (Begin(quiet, K::kSegmentBegin, m)) skip = true;
    }
    if (d->notify == Notify::kBlockGroup && !after_seek) {
      if (Begin(quiet, K::kBlockGroupBegin, m)) skip = true;
      started = true;
    }
    uint64_t cap = m.size != kUnkSize ? m.size : max_size;
    uint64_t start = pos;
    bool has_cap = cap != kUnkSize;
    bool ended_cached = false;
    Meta pend;
    bool have_pend = false, preverified = false;
    size_t next_chain = ci;
    uint64_t extra = 0;  // header bytes of a header handed to us by a child
    (void)extra;
    if (after_seek && ci >= chain->size()) { pend = *first; have_pend = true; preverified = true; }
    if (m.size == 0 || cap == 0) goto done;
    while (true) {
      std::string cval;
      bool cstored = false;
      Meta c;
      bool child_cached = false;
      Meta ccached;
      if (after_seek && next_chain < chain->size()) {
        // Implied ancestor.
        uint32_t id = (*chain)[next_chain];
        c = Meta{id, kUnkHdr, kUnkSize, kUnkSize};
        const Def* cd = DefById(id);
        child_cached = Master(cd, c, kUnkSize, skip, 1, &cval, &cstored, &ccached, chain, next_chain + 1, first);
        next_chain = chain->size();
      } else {
        if (have_pend) { c = pend; have_pend = false; }
        else {
          if (m.size == kUnkSize && pos >= end) break;
          c = Header();
        }
        const Field* f = d->Find(c.id);
        bool known = f || c.id == kIdVoid;
        if (!preverified) {
          uint64_t used = pos - start;
          if (has_cap && (used > cap || (c.size != kUnkSize && c.size > cap - used))) throw ParseEnd{kOverflow};
          if (!known && m.size == kUnkSize) { *cached = c; ended_cached = true; break; }
          if (!known && c.size == kUnkSize) throw ParseEnd{kIndef};
        }
        preverified = false;
        bool cskip = Begin(skip, K::kElementBegin, c);
        if (cskip && c.size != kUnkSize) {
          SkipBytes(c.size);
        } else {
          uint64_t rem = has_cap ? cap - (pos - start) : kUnkSize;
          child_cached = Element(f, c, rem, cskip, skip, d, val, m, &started, &skip, depth, &cval, &cstored, &ccached);
          if (cskip) cstored = false;
        }
      }
      // Store.
      if (cstored && !skip) {
        for (size_t i = 0; i < d->fields.size(); ++i)
          if (d->fields[i].id == c.id) { val.v[i].push_back("P:" + cval); val.zero[i] = c.size == 0; }
      }
      if (child_cached) { pend = ccached; have_pend = true; }
      uint64_t used = pos - start;
      if (has_cap) {
        if (used > cap) throw ParseEnd{kOverflow};
        if (used == cap && !have_pend) break;
      }
    }
  done:
    // Inherited defaults.
    if (d->id == 0xE1) Inherit(&val, 1, 0);
    if (d->id == 0xE0) { Inherit(&val, 9, 3); Inherit(&val, 10, 4); }
    if (d->notify == Notify::kCluster && !started) {
      if (Begin(skip, K::kClusterBegin, m, skip ? "" : Render(val))) skip = true;
    }
    if (!skip) {
      switch (d->notify) {
        case Notify::kEbml: Emit(false, K::kEbml, m, Render(val)); break;
        case Notify::kSegment: Emit(false, K::kSegmentEnd, m); break;
        case Notify::kSeek: Emit(false, K::kSeek, m, Render(val)); break;
        case Notify::kInfo: Emit(false, K::kInfo, m, Render(val)); break;
        case Notify::kCluster: Emit(false, K::kClusterEnd, m, Render(val)); break;
        case Notify::kBlockGroup: Emit(false, K::kBlockGroupEnd, m, Render(val)); break;
        case Notify::kTrackEntry: Emit(false, K::kTrackEntry, m, Render(val)); break;
        case Notify::kCuePoint: Emit(false, K::kCuePoint, m, Render(val)); break;
        case Notify::kEdition: Emit(false, K::kEdition, m, Render(val)); break;
        case Notify::kTag: Emit(false, K::kTag, m, Render(val)); break;
        default: break;
      }
    }
    *stored = !skip && d->has_value;
    if (*stored) *out = Render(val);
    return ended_cached;
  }
  void Inherit(Val* v, int to, int from) {
    if (!v->v[to].empty() && !v->zero[to]) return;
    std::string src = v->v[from].empty() ? RenderDefault(v->d->fields[from]) : v->v[from].back().substr(2);
    if (v->v[to].empty()) v->v[to].push_back("D:" + src);
    else v->v[to].back() = "P:" + src;
  }

  // Parses the body of a (non length-skipped) child element.
  bool Element(const Field* f, const Meta& c, uint64_t rem, bool cskip, bool parent_skip, const Def* pd, Val& pval,
               const Meta& pm, bool* started, bool* pskip, int depth,
               std::string* out, bool* stored, Meta* cached) {
    *stored = !cskip;
    bool q = cskip;
    T t = f ? f->type : c.id == kIdVoid ? T::kVoid : T::kUnknown;
    uint64_t n = c.size;
    switch (t) {
      case T::kVoid:
        if (n == kUnkSize) throw ParseEnd{kBadSize};
        { std::string v = Capture(n); Emit(q, K::kVoid, c, v); }
        *stored = false;
        return false;
      case T::kUnknown:
        if (n == kUnkSize) throw ParseEnd{kIndef};
        { std::string v = Capture(n); Emit(q, K::kUnknown, c, v); }
        *stored = false;
        return false;
      case T::kMaster: {
        int dep = 1;
        if (pd->id == c.id) {  // recursive element
          dep = depth + 1;
          if (dep > 26) throw ParseEnd{kTooDeep};
        }
        if (pd->id == kIdCluster && !*started) {
          *started = true;
          if (Begin(parent_skip || q, K::kClusterBegin, pm, Render(pval))) { q = true; *pskip = true; }
        }
        return Master(DefById(c.id), c, rem, q, dep, out, stored, cached);
      }
      case T::kSimpleBlock: case T::kBlock: {
        if (n == kUnkSize || n < 5) throw ParseEnd{kBadSize};
        if (pd->id == kIdCluster && !*started) {
          *started = true;
          if (Begin(parent_skip || q, K::kClusterBegin, pm, Render(pval))) { q = true; *pskip = true; }
        }
        Block(t == T::kSimpleBlock, c, q, out, stored);
        return false;
      }
      case T::kVirtual: {
        if (n == kUnkSize || n < 4) throw ParseEnd{kBadSize};
        uint64_t p0 = pos;
        int len; bool ones;
        uint64_t track = VarInt(&len, &ones, kBadValue);
        int16_t tc = (int16_t)(Byte() << 8);
        tc = (int16_t)(tc | Byte());
        Byte();
        if (pos - p0 > n) throw ParseEnd{kBadValue};
        SkipBytes(n - (pos - p0));
        *out = Fmt("{track=%llu;tc=%d}", (unsigned long long)track, tc);
        return false;
      }
      case T::kUInt: case T::kSInt: case T::kId: case T::kDate: {
        if (t == T::kId ? (n == 0 || n > 4) : t == T::kDate ? (n != 0 && n != 8) : n > 8) throw ParseEnd{kBadSize};
        if (n == 0) { *out = RenderDefault(*f); return false; }
        uint64_t v = 0;
        for (uint64_t i = 0; i < n; ++i) v = v << 8 | Byte();
        if (t == T::kSInt || t == T::kDate) {
          int sh = 64 - 8 * (int)n;
          int64_t s = (int64_t)(v << sh) >> sh;
          *out = RS(s);
        } else {
          *out = RU(v);
        }
        return false;
      }
      case T::kBool: {
        if (n > 8) throw ParseEnd{kBadSize};
        if (n == 0) { *out = RenderDefault(*f); return false; }
        bool bad = false;
        uint8_t last = 0;
        for (uint64_t i = 0; i < n; ++i) {
          if (pos >= end) throw ParseEnd{bad ? kBadValue : kEof};
          last = Byte();
          if (last && i + 1 < n) bad = true;
        }
        if (bad || last > 1) throw ParseEnd{kBadValue};
        *out = RU(last);
        return false;
      }
      case T::kFloat: {
        if (n != 0 && n != 4 && n != 8) throw ParseEnd{kBadSize};
        if (n == 0) { *out = RenderDefault(*f); return false; }
        uint64_t v = 0;
        for (uint64_t i = 0; i < n; ++i) v = v << 8 | Byte();
        double d;
        if (n == 4) { uint32_t u = (uint32_t)v; float fl; memcpy(&fl, &u, 4); d = fl; }
        else memcpy(&d, &v, 8);
        *out = RD(d);
        return false;
      }
      case T::kString: case T::kBinary: {
        if (n == kUnkSize) throw ParseEnd{kBadSize};
        if (n > (192ull << 20)) { huge = true; throw ParseEnd{kNoMem}; }
        if (n == 0) { *out = RenderDefault(*f); return false; }
        if (n > end - pos) { pos = end; throw ParseEnd{kEof}; }
        const uint8_t* p = b.data() + pos;
        uint64_t len = n;
        pos += n;
        if (t == T::kString) while (len && !p[len - 1]) --len;
        *out = RBytes(p, len);
        return false;
      }
    }
    return false;
  }

  void Block(bool simple, const Meta& c, bool quiet, std::string* out, bool* stored) {
    uint64_t p0 = pos, n = c.size;
    int len; bool ones;
    uint64_t track = VarInt(&len, &ones, kBadValue);
    int tc = Byte() << 8;
    tc |= Byte();
    uint8_t fl = Byte();
    int lacing = fl & 6;
    int frames = 1;
    if (lacing) frames = Byte() + 1;
    std::string v = Fmt("{track=%llu;n=%d;tc=%d;lacing=%d;vis=%d", (unsigned long long)track, frames, (int)(int16_t)tc,
                        lacing, !(fl & 8));
    if (simple) v += Fmt(";key=%d;disc=%d", !!(fl & 0x80), fl & 1);
    v += "}";
    *out = v;
    if (Begin(quiet, simple ? K::kSimpleBlockBegin : K::kBlockBegin, c, v)) {
      if (pos - p0 > n) throw ParseEnd{kBadValue};
      SkipBytes(n - (pos - p0));
      *stored = false;
      return;
    }
    std::vector<uint64_t> sizes;
    typedef unsigned __int128 u128;
    bool bad = false;
    if (frames > 1 && lacing == 2) {
      for (int i = 0; i < frames - 1; ++i) {
        uint64_t s = 0;
        uint8_t x;
        do { x = Byte(); s += x; } while (x == 255);
        sizes.push_back(s);
      }
    } else if (frames > 1 && lacing == 6) {
      __int128 cur = 0;
      for (int i = 0; i < frames - 1; ++i) {
        uint64_t x = VarInt(&len, &ones, kBadValue);
        if (i == 0) cur = x;
        else cur += (__int128)x - (((__int128)1 << (7 * len - 1)) - 1);
        if (cur < 0 || cur > (__int128)n) bad = true;
        sizes.push_back((uint64_t)cur);
      }
    } else if (frames > 1) {
      uint64_t h = pos - p0;
      if (h >= n || (n - h) % frames) throw ParseEnd{kBadValue};
      for (int i = 0; i < frames - 1; ++i) sizes.push_back((n - h) / frames);
    }
    u128 sum = pos - p0;
    for (uint64_t s : sizes) sum += s;
    if (bad || sum >= n) throw ParseEnd{kBadValue};
    sizes.push_back(n - (uint64_t)sum);
    for (uint64_t s : sizes) {
      uint64_t fp = base + pos;
      std::string data = Capture(s);
      Emit(false, K::kFrame, c, data, fp, s);
    }
    Emit(false, simple ? K::kSimpleBlockEnd : K::kBlockEnd, c, v);
    *stored = true;
  }
};

bool FindChain(uint32_t id, std::vector<uint32_t>* chain) {
  // Depth-first search through the schema for the (first) master holding id.
  struct S {
    uint32_t id; std::vector<uint32_t>* chain;
    bool Go(const Def* d) {
      chain->push_back(d->id);
      for (auto& f : d->fields) {
        if (f.id == id) return true;
        if (f.type == T::kMaster && f.id != d->id && Go(DefById(f.id))) return true;
      }
      chain->pop_back();
      return false;
    }
  };
  S s{id, chain};
  chain->clear();
  if (s.Go(DefById(kIdEbml))) return true;
  chain->clear();
  return s.Go(DefById(kIdSegment));
}
}  // namespace

RefResult RefParse(const Bytes& b, uint64_t base, uint64_t start, bool did_seek, const SkipPlan& plan) {
  RefResult r;
  Ref p(b, base, start, plan);
  try {
    Meta pend;
    bool have = false;
    while (true) {
      Meta c;
      if (have) { c = pend; have = false; }
      else {
        if (p.pos >= p.end) break;
        c = p.Header();
      }
      std::string v;
      bool st;
      std::vector<uint32_t> chain;
      if (c.id == kIdEbml || c.id == kIdSegment) {
        did_seek = false;
        bool sk = p.Begin(false, K::kElementBegin, c);
        if (sk && c.size != kUnkSize) p.SkipBytes(c.size);
        else have = p.Master(DefById(c.id), c, kUnkSize, sk, 1, &v, &st, &pend);
      } else if (did_seek && c.id != kIdVoid && FindChain(c.id, &chain)) {
        did_seek = false;
        Meta top{chain[0], kUnkHdr, kUnkSize, kUnkSize};
        have = p.Master(DefById(chain[0]), top, kUnkSize, false, 1, &v, &st, &pend, &chain, 1, &c);
      } else {
        if (c.id != kIdVoid && c.size == kUnkSize) throw ParseEnd{kIndef};
        bool sk = p.Begin(false, K::kElementBegin, c);
        if (sk && c.size != kUnkSize) p.SkipBytes(c.size);
        else {
          if (c.size == kUnkSize) throw ParseEnd{kBadSize};
          std::string s = p.Capture(c.size);
          p.Emit(false, c.id == kIdVoid ? K::kVoid : K::kUnknown, c, s);
        }
      }
    }
    r.status = 0;
  } catch (ParseEnd& e) {
    r.status = e.code;
  }
  r.events.swap(p.ev);
  r.huge = p.huge;
  r.consumed = p.pos;
  return r;
}

// -------------------------------------------------------------- writing ----
int IdLen(uint32_t id) { return id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1; }
void PutUIntBE(Bytes* b, uint64_t v, int len) {
  for (int i = len - 1; i >= 0; --i) b->push_back(i >= 8 ? 0 : (uint8_t)(v >> (8 * i)));
}
void PutId(Bytes* b, uint32_t id) { PutUIntBE(b, id, IdLen(id)); }
int MinSizeLen(uint64_t v) {
  int n = 1;
  while (n < 8 && v >= (1ULL << (7 * n)) - 1) ++n;
  return n;
}
void PutSize(Bytes* b, uint64_t v, int len) {
  int m = MinSizeLen(v);
  if (len < m) len = m;
  PutUIntBE(b, v | (1ULL << (7 * len)), len);
}
void PutUnknownSize(Bytes* b, int len) {
  if (len < 1) len = 8;
  PutUIntBE(b, (1ULL << (7 * len + 1)) - 1 > 0 && len < 9 ? ((len == 8) ? 0x01FFFFFFFFFFFFFFULL : (1ULL << (7 * len + 1)) - 1) : 0, len);
}

// ------------------------------------------------------------ generator ----
namespace {
struct GenState {
  DocOpts o;
  int density;       // 1..10 probability of optional fields
  int zero_pct;      // zero-size leaf probability /16
  int void_den, unk_den;   // 0 = never
  int unksize_den;
  int sizelen_mode;  // 0 minimal, 1 random, 2 always 8
  bool shuffle;
  int budget;
  bool burst = false;  // one repeated element occurs very often
};

Bytes GenBlock(GenState* g, bool simple) {
  Bytes b;
  uint64_t track = 1 + Magnitude(Chance(1, 8, "blk.trackbig") ? (1ULL << 40) : 100, "blk.track");
  PutSize(&b, track, Chance(1, 6, "blk.tracklen") ? (int)Range(1, 8, "blk.tl") : 0);
  PutUIntBE(&b, Draw(65536, "blk.tc"), 2);
  int lacing = Chance(1, 2, "blk.lace?") ? (int)Draw(4, "blk.lace") * 2 : 0;
  uint8_t flags = (uint8_t)lacing;
  flags |= (uint8_t)(Draw(2, "blk.inv") << 3);
  if (simple) flags |= (uint8_t)((Draw(2, "blk.key") << 7) | Draw(2, "blk.disc"));
  else if (Chance(1, 8, "blk.junkflags")) flags |= 0x80 | 0x01;
  b.push_back(flags);
  int frames = 1;
  if (lacing) {
    frames = Chance(1, 12, "blk.many") ? (int)Range(1, 256, "blk.n") : (int)Range(1, 6, "blk.n");
    b.push_back((uint8_t)(frames - 1));
  }
  std::vector<uint64_t> sz(frames);
  uint64_t maxp = frames > 20 ? 12 : g->o.max_payload;
  uint64_t fixed = 1 + Magnitude(maxp, "blk.sz");
  for (int i = 0; i < frames; ++i)
    sz[i] = lacing == 4 || frames == 1 ? fixed : Magnitude(maxp, "blk.sz");
  if (sz.back() == 0) sz.back() = 1;
  if (frames > 1 && lacing == 2) {
    for (int i = 0; i < frames - 1; ++i) {
      uint64_t s = sz[i];
      while (s >= 255) { b.push_back(255); s -= 255; }
      b.push_back((uint8_t)s);
    }
  } else if (frames > 1 && lacing == 6) {
    for (int i = 0; i < frames - 1; ++i) {
      if (i == 0) { PutSize(&b, sz[0], Chance(1, 5, "blk.l0") ? (int)Range(1, 8, "blk.l0n") : 0); continue; }
      int64_t d = (int64_t)sz[i] - (int64_t)sz[i - 1];
      int len = 1;
      while (true) {
        int64_t bias = (1LL << (7 * len - 1)) - 1;
        if (d >= -bias && d <= bias + 0) break;
        ++len;
      }
      if (len < 8 && Chance(1, 6, "blk.ll")) len = (int)Range(len, 8, "blk.lln");
      uint64_t bias = (1ULL << (7 * len - 1)) - 1;
      PutUIntBE(&b, (uint64_t)(d + (int64_t)bias) | (1ULL << (7 * len)), len);
    }
  }
  uint64_t total = 0;
  for (uint64_t s : sz) total += s;
  Bytes p = MakePayload(Draw(1 << 20, "blk.data"), total);
  b.insert(b.end(), p.begin(), p.end());
  return b;
}

std::unique_ptr<Node> GenLeaf(GenState* g, const Field& f) {
  std::unique_ptr<Node> n(new Node);
  n->id = f.id;
  n->type = f.type;
  --g->budget;
  bool zero = g->zero_pct && Chance(g->zero_pct, 16, "leaf.zero");
  switch (f.type) {
    case T::kUInt: {
      if (zero) break;
      uint64_t v = Chance(1, 4, "u.big") ? Magnitude(~0ULL, "u.v") : Draw(300, "u.v");
      int len = 1;
      while (len < 8 && (v >> (8 * len))) ++len;
      if (Chance(1, 4, "u.pad")) len = (int)Range(len, 8, "u.len");
      PutUIntBE(&n->payload, v, len);
      break;
    }
    case T::kSInt: {
      if (zero) break;
      int64_t v = (int64_t)Magnitude(0x7fffffffffffffffULL, "s.v");
      if (Draw(2, "s.neg")) v = -v - (int64_t)Draw(2, "s.neg1");
      int len = 1;
      while (len < 8 && (v < -(1LL << (8 * len - 1)) || v >= (1LL << (8 * len - 1)))) ++len;
      if (Chance(1, 4, "s.pad")) len = (int)Range(len, 8, "s.len");
      PutUIntBE(&n->payload, (uint64_t)v, len);
      break;
    }
    case T::kDate:
      if (!zero) PutUIntBE(&n->payload, Draw(2, "date.neg") ? ~Magnitude(1ULL << 62, "date") : Magnitude(1ULL << 62, "date"), 8);
      break;
    case T::kFloat: {
      if (zero) break;
      double d = (double)(int64_t)Magnitude(1ULL << 40, "f.v") / (double)(1ULL << Draw(20, "f.sh"));
      if (Draw(2, "f.neg")) d = -d;
      if (Draw(2, "f.w")) { uint64_t u; memcpy(&u, &d, 8); PutUIntBE(&n->payload, u, 8); }
      else { float x = (float)d; uint32_t u; memcpy(&u, &x, 4); PutUIntBE(&n->payload, u, 4); }
      break;
    }
    case T::kString: {
      if (zero) break;
      size_t len = 1 + Magnitude(40, "str.len");
      Bytes p = MakePayload(Draw(1 << 16, "str.v"), len);
      for (auto& c : p) c = (uint8_t)(32 + c % 95);
      if (Chance(1, 6, "str.nulmid")) p[Draw(p.size(), "str.nulpos")] = 0;
      if (Chance(1, 4, "str.pad")) p.insert(p.end(), 1 + Draw(5, "str.padn"), 0);
      n->payload = p;
      break;
    }
    case T::kBinary:
      if (!zero) n->payload = MakePayload(Draw(1 << 16, "bin.v"), 1 + Magnitude(g->o.big ? 70000 : 300, "bin.len"));
      break;
    case T::kBool:
      if (!zero) PutUIntBE(&n->payload, Draw(2, "bool"), Chance(1, 4, "bool.pad") ? (int)Range(1, 8, "bool.len") : 1);
      break;
    case T::kId: PutUIntBE(&n->payload, Draw(0xFFFFFFFF, "idv"), (int)Range(1, 4, "id.len")); break;
    case T::kSimpleBlock: n->payload = GenBlock(g, true); break;
    case T::kBlock: n->payload = GenBlock(g, false); break;
    case T::kVirtual: {
      PutSize(&n->payload, 1 + Draw(200, "vb.track"), 0);
      PutUIntBE(&n->payload, Draw(65536, "vb.tc"), 2);
      n->payload.push_back((uint8_t)Draw(256, "vb.flags"));
      if (Chance(1, 5, "vb.extra")) { Bytes e = MakePayload(1, 1 + Draw(12, "vb.extran")); n->payload.insert(n->payload.end(), e.begin(), e.end()); }
      break;
    }
    default: break;
  }
  return n;
}

int GenSizeLen(GenState* g) {
  if (g->sizelen_mode == 0) return 0;
  if (g->sizelen_mode == 2) return 8;
  return Chance(1, 3, "sz.len?") ? (int)Range(1, 8, "sz.len") : 0;
}

std::unique_ptr<Node> MakeVoid(GenState* g) {
  std::unique_ptr<Node> n(new Node);
  n->id = kIdVoid;
  n->type = T::kVoid;
  n->payload = MakePayload(Draw(1 << 12, "void.v"), Magnitude(200, "void.len"));
  n->size_len = GenSizeLen(g);
  return n;
}
std::unique_ptr<Node> MakeUnknown(GenState* g, const Def* in) {
  std::unique_ptr<Node> n(new Node);
  static const uint32_t ids[] = {0xBF, 0x4D42, 0x2A1B2C, 0x1A2B3C4D, 0xB0, 0x7BA9, 0xA3, 0xF7, 0x1654AE6B, 0x45A3, 0x22B59D, 0x54B1};
  n->id = ids[Draw(12, "unk.id")];
  if (in && IsChildOf(in, n->id)) n->id = 0x4D43;
  if (!in && (n->id == kIdVoid)) n->id = 0xBF;
  n->type = T::kUnknown;
  n->payload = MakePayload(Draw(1 << 12, "unk.v"), Magnitude(200, "unk.len"));
  n->size_len = GenSizeLen(g);
  return n;
}

std::unique_ptr<Node> GenMaster(GenState* g, const Def* d, int depth) {
  std::unique_ptr<Node> n(new Node);
  n->id = d->id;
  n->type = T::kMaster;
  n->def = d;
  n->size_len = GenSizeLen(g);
  --g->budget;
  bool empty = Chance(1, 24, "m.empty");
  for (auto& f : d->fields) {
    if (empty) break;
    if (d->id == kIdSegment) continue;
    int count = 0;
    bool structural = f.type == T::kSimpleBlock || f.type == T::kBlock || (f.rep && f.type == T::kMaster);
    if (f.rep) {
      bool recursive = f.id == d->id;
      if (recursive) count = depth < g->o.max_depth && Chance(depth < 3 ? 3 : 5, depth < 3 ? 10 : 8, "m.rec") ? 1 + (int)Chance(1, 4, "m.rec2") : 0;
      else if (Chance(structural ? 8 : g->density, 10, "m.rep?")) count = (int)Range(1, structural ? 4 : 3, "m.rep");
    } else {
      count = Chance(structural ? 9 : g->density, 10, "m.opt");
    }
    const int density = g->density;
    if (g->burst && f.rep && f.id != d->id && Chance(1, 3, "m.burst")) {
      g->burst = false;
      count = (int)Range(20, 300, "m.burstn");
      g->budget += 3 * count;
      g->density = 1;
    }
    for (int i = 0; i < count && g->budget > 0; ++i) {
      std::unique_ptr<Node> c;
      if (f.type == T::kMaster) c = GenMaster(g, DefById(f.id), f.id == d->id ? depth + 1 : 1);
      else { c = GenLeaf(g, f); c->size_len = GenSizeLen(g); }
      n->kids.push_back(std::move(c));
    }
    g->density = density;
  }
  if (d->id == kIdSegment && !empty) {
    static const uint32_t order[] = {0x114D9B74, 0x1549A966, 0x1654AE6B, 0x1043A770, 0x1254C367};
    for (uint32_t id : order)
      if (Chance(7, 10, "seg.child")) n->kids.push_back(GenMaster(g, DefById(id), 1));
    int nc = (int)Draw(g->o.max_clusters + 1, "seg.clusters");
    for (int i = 0; i < nc; ++i) n->kids.push_back(GenMaster(g, DefById(kIdCluster), 1));
    if (Chance(6, 10, "seg.cues")) n->kids.push_back(GenMaster(g, DefById(0x1C53BB6B), 1));
    if (Chance(1, 6, "seg.tags2")) n->kids.push_back(GenMaster(g, DefById(0x1254C367), 1));
  }
  if (g->shuffle && n->kids.size() > 1 && Chance(1, 2, "m.shuf")) {
    for (size_t i = n->kids.size() - 1; i > 0; --i) std::swap(n->kids[i], n->kids[Draw(i + 1, "m.perm")]);
  }
  if (g->void_den && Chance(1, g->void_den, "m.void?"))
    n->kids.insert(n->kids.begin() + Draw(n->kids.size() + 1, "m.voidpos"), MakeVoid(g));
  if (g->unk_den && Chance(1, g->unk_den, "m.unk?"))
    n->kids.insert(n->kids.begin() + Draw(n->kids.size() + 1, "m.unkpos"), MakeUnknown(g, d));
  if (g->unksize_den && Chance(1, g->unksize_den, "m.unksize")) {
    n->unknown_size = true;
    n->size_len = (int)Range(1, 8, "m.unklen");
  }
  return n;
}

// An unknown-sized master must be delimited by what follows it.
void FixUnknown(Node* n, uint32_t follow /* 0 = end of known parent or EOF */) {
  for (size_t i = 0; i < n->kids.size(); ++i) {
    Node* c = n->kids[i].get();
    uint32_t f = i + 1 < n->kids.size() ? n->kids[i + 1]->id : (n->parent && !n->unknown_size ? 0 : follow);
    if (c->type == T::kMaster) {
      if (c->unknown_size) {
        bool ok = !f || !IsChildOf(c->def, f);
        for (auto& k : c->kids) if (!IsChildOf(c->def, k->id)) ok = false;
        if (!ok) { c->unknown_size = false; }
      }
      FixUnknown(c, f);
    }
  }
}
void SetParents(Node* n) {
  for (auto& k : n->kids) { k->parent = n; SetParents(k.get()); }
}
uint64_t BodySize(Node* n) {
  if (n->type != T::kMaster) { n->body = n->payload.size(); }
  else {
    n->body = 0;
    for (auto& k : n->kids) n->body += BodySize(k.get()) + k->hs;
  }
  uint64_t decl = n->lie_size != kUnkSize ? n->lie_size : n->body;
  n->hs = IdLen(n->id) + (n->unknown_size ? std::max(1, n->size_len) : std::max(n->size_len, MinSizeLen(decl)));
  return n->body;
}
void Write(Node* n, Bytes* b) {
  n->pos = b->size();
  PutId(b, n->id);
  if (n->unknown_size) PutUnknownSize(b, std::max(1, n->size_len));
  else PutSize(b, n->lie_size != kUnkSize ? n->lie_size : n->body, n->size_len);
  if (n->type == T::kMaster) for (auto& k : n->kids) Write(k.get(), b);
  else b->insert(b->end(), n->payload.begin(), n->payload.end());
}
}  // namespace

std::unique_ptr<Node> GenDocument(const DocOpts& o) {
  GenState g;
  g.o = o;
  g.density = (int)Range(2, 9, "doc.density");
  g.zero_pct = (int)Draw(4, "doc.zero");
  g.void_den = Chance(1, 2, "doc.void") ? (int)Range(2, 12, "doc.voidden") : 0;
  g.unk_den = o.allow_unknown_elems && Chance(1, 2, "doc.unk") ? (int)Range(2, 12, "doc.unkden") : 0;
  g.unksize_den = o.allow_unknown_size && Chance(1, 2, "doc.unksz") ? (int)Range(1, 8, "doc.unkszden") : 0;
  g.sizelen_mode = (int)Draw(3, "doc.szmode");
  g.shuffle = Chance(1, 3, "doc.shuffle");
  g.budget = (int)Range(10, 220, "doc.budget");
  g.burst = Chance(1, 60, "doc.burst");
  std::unique_ptr<Node> root(new Node);
  root->id = 0;
  int reps = o.chained && Chance(1, 8, "doc.chained") ? 2 : 1;
  for (int i = 0; i < reps; ++i) {
    if (!Chance(1, 16, "doc.noebml")) root->kids.push_back(GenMaster(&g, DefById(kIdEbml), 1));
    if (Chance(1, 10, "doc.l0void")) root->kids.push_back(MakeVoid(&g));
    root->kids.push_back(GenMaster(&g, DefById(kIdSegment), 1));
    if (o.allow_unknown_elems && Chance(1, 10, "doc.l0unk")) {
      auto u = MakeUnknown(&g, DefById(kIdSegment));
      root->kids.push_back(std::move(u));
    }
    if (Chance(1, 12, "doc.l0void2")) root->kids.push_back(MakeVoid(&g));
  }
  SetParents(root.get());
  FixUnknown(root.get(), 0);
  return root;
}

Bytes Serialise(Node* root) {
  Bytes b;
  for (auto& k : root->kids) BodySize(k.get());
  for (auto& k : root->kids) Write(k.get(), &b);
  return b;
}
void Flatten(Node* n, std::vector<Node*>* out) {
  for (auto& k : n->kids) { out->push_back(k.get()); Flatten(k.get(), out); }
}

}  // namespace sim
