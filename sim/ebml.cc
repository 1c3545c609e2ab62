#include "ebml.h"

namespace sim {
namespace {

bool IsMaster(uint32_t id) {
  switch (id) {
    case 0x1A45DFA3: case 0x18538067: case 0x114D9B74: case 0x4DBB: case 0x1549A966:
    case 0x1654AE6B: case 0xAE: case 0xE0: case 0xE1: case 0x6D80: case 0x6240: case 0x5035:
    case 0x47E7: case 0x55B0: case 0x55D0: case 0x7670: case 0x1F43B675: case 0xA0: case 0x75A1:
    case 0xA6: case 0x1C53BB6B: case 0xBB: case 0xB7: case 0x1043A770: case 0x45B9: case 0xB6:
    case 0x80: case 0x1254C367: case 0x7373: case 0x67C8:
      return true;
  }
  return false;
}
bool IsLevel1(uint32_t id) {
  switch (id) {
    case 0x114D9B74: case 0x1549A966: case 0x1654AE6B: case 0x1F43B675: case 0x1C53BB6B:
    case 0x1043A770: case 0x1254C367:
      return true;
  }
  return false;
}
bool IsLevel0(uint32_t id) { return id == 0x1A45DFA3 || id == 0x18538067; }

struct P {
  const Bytes& b; bool tol; std::string* err;
  bool Bad(uint64_t pos, const char* what) {
    *err = Fmt("%s at byte %llu", what, (unsigned long long)pos);
    return false;
  }
  // 1 ok, 0 truncated, -1 bad
  int Header(uint64_t pos, uint64_t limit, El* e) {
    e->pos = pos;
    if (pos >= limit) return 0;
    uint8_t f = b[pos];
    int n = 1;
    while (n <= 4 && !(f & (0x80 >> (n - 1)))) ++n;
    if (n > 4) { Bad(pos, "invalid element ID"); return -1; }
    if (limit - pos < (uint64_t)n + 1) return 0;
    uint32_t id = 0;
    for (int i = 0; i < n; ++i) id = (id << 8) | b[pos + i];
    uint64_t p = pos + n;
    f = b[p];
    int m = 1;
    while (m <= 8 && !(f & (0x80 >> (m - 1)))) ++m;
    if (m > 8) { Bad(p, "invalid element size"); return -1; }
    if (limit - p < (uint64_t)m) return 0;
    uint64_t v = f & ((1u << (8 - m)) - 1);
    bool ones = v == ((1u << (8 - m)) - 1);
    for (int i = 1; i < m; ++i) { v = (v << 8) | b[p + i]; ones = ones && b[p + i] == 0xFF; }
    e->id = id; e->hdr = n + m; e->unknown = ones; e->size = ones ? 0 : v;
    return 1;
  }
  // Parses children of `parent` from pos up to limit; open: stop at an element
  // that cannot be a child (parent has unknown size).
  bool Kids(El* parent, uint64_t pos, uint64_t limit, bool open, int depth, uint64_t* stop) {
    if (depth > 24) return Bad(pos, "nesting too deep");
    while (pos < limit) {
      El e;
      int r = Header(pos, limit, &e);
      if (r < 0) return false;
      if (r == 0) {
        if (tol && limit == b.size()) break;
        return Bad(pos, "element header crosses the end of its parent");
      }
      if (open && (IsLevel0(e.id) || (parent->id == 0x1F43B675 && IsLevel1(e.id)))) break;
      if (e.unknown) {
        if (e.id != 0x18538067 && e.id != 0x1F43B675) return Bad(pos, "unknown size on an element that needs one");
        uint64_t st = 0;
        if (!Kids(&e, e.body(), limit, true, depth + 1, &st)) return false;
        e.size = st - e.body();
        pos = st;
        parent->kids.push_back(std::move(e));
        continue;
      }
      uint64_t avail = limit - e.body();
      if (e.size > avail) {
        if (!(tol && limit == b.size())) return Bad(pos, "element extends past the end of its parent");
        e.cut = true;
      }
      uint64_t lim = e.cut ? limit : e.end();
      if (IsMaster(e.id)) {
        uint64_t st = 0;
        if (!Kids(&e, e.body(), lim, false, depth + 1, &st)) return false;
        parent->kids.push_back(std::move(e));
      } else if (!e.cut) {
        parent->kids.push_back(std::move(e));
      }
      pos = lim;
    }
    *stop = pos;
    return true;
  }
};

bool ReadBlock(const Bytes& b, const El& e, Blk* k) {
  uint64_t p = e.body(), end = e.end();
  if (end - p < 4) return false;
  if (!(b[p] & 0x80)) return false;   // muxer writes one-byte track numbers
  k->track = b[p] & 0x7F;
  k->tc = (int16_t)((b[p + 1] << 8) | b[p + 2]);
  uint8_t flags = b[p + 3];
  if (flags & 0x06) return false;     // laced
  k->key = (flags & 0x80) != 0;
  k->data.assign(b.begin() + p + 4, b.begin() + end);
  return true;
}
}  // namespace

bool ParseEbml(const Bytes& b, bool tolerant, El* root, std::string* err) {
  P p{b, tolerant, err};
  uint64_t st = 0;
  return p.Kids(root, 0, b.size(), false, 0, &st);
}
uint64_t ElUInt(const Bytes& b, const El& e) {
  uint64_t v = 0;
  for (uint64_t i = 0; i < e.size && i < 8; ++i) v = (v << 8) | b[e.body() + i];
  return v;
}
int64_t ElSInt(const Bytes& b, const El& e) {
  if (!e.size) return 0;
  uint64_t v = (b[e.body()] & 0x80) ? ~0ULL : 0;
  for (uint64_t i = 0; i < e.size && i < 8; ++i) v = (v << 8) | b[e.body() + i];
  return (int64_t)v;
}
double ElFloat(const Bytes& b, const El& e) {
  uint64_t v = ElUInt(b, e);
  if (e.size == 4) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
  if (e.size == 8) { double d; memcpy(&d, &v, 8); return d; }
  return 0;
}
std::string ElStr(const Bytes& b, const El& e) {
  return std::string(b.begin() + e.body(), b.begin() + e.end());
}

bool ViewFile(const Bytes& b, bool tolerant, FileView* v, std::string* err) {
  if (!ParseEbml(b, tolerant, &v->root, err)) return false;
  for (auto& k : v->root.kids) {
    if (k.id == 0x1A45DFA3) { if (v->ebml) { *err = "two EBML headers"; return false; } v->ebml = &k; }
    if (k.id == 0x18538067) { if (v->segment) { *err = "two segments"; return false; } v->segment = &k; }
  }
  if (!v->segment) {
    if (tolerant) return true;
    *err = "no segment";
    return false;
  }
  for (auto& c : v->segment->kids) {
    if (c.id != 0x1F43B675) continue;
    ClusterInfo ci;
    ci.pos = c.pos; ci.end = c.end(); ci.unknown = c.unknown;
    for (auto& k : c.kids) {
      if (k.id == 0xE7) { ci.tc = ElUInt(b, k); ci.has_tc = true; }
      bool group = k.id == 0xA0;
      if (k.id != 0xA3 && !group) continue;
      if (group && k.cut) continue;
      if (!ci.has_tc) { *err = Fmt("block before its cluster's timecode at byte %llu", (unsigned long long)k.pos); return false; }
      Blk bl;
      bl.simple = !group;
      if (!group) {
        if (!ReadBlock(b, k, &bl)) { *err = Fmt("malformed block at byte %llu", (unsigned long long)k.pos); return false; }
      } else {
        const El* blk = k.Find(0xA1);
        if (!blk || k.CountOf(0xA1) != 1) { *err = Fmt("block group without one block at byte %llu", (unsigned long long)k.pos); return false; }
        if (!ReadBlock(b, *blk, &bl)) { *err = Fmt("malformed block at byte %llu", (unsigned long long)k.pos); return false; }
        bl.has_ref = k.Find(0xFB) != nullptr;
        bl.key = !bl.has_ref;
        if (auto d = k.Find(0x9B)) { bl.has_dur = true; bl.dur = ElUInt(b, *d); }
        if (auto d = k.Find(0x75A2)) { bl.has_discard = true; bl.discard = ElSInt(b, *d); }
        if (auto a = k.Find(0x75A1)) {
          const El* more = a->Find(0xA6);
          if (!more) { *err = "block additions without an entry"; return false; }
          bl.has_add = true;
          auto id = more->Find(0xEE), ad = more->Find(0xA5);
          bl.add_id = id ? ElUInt(b, *id) : 1;
          if (ad) bl.add.assign(b.begin() + ad->body(), b.begin() + ad->end());
        }
      }
      bl.tc += (int64_t)ci.tc;
      bl.cluster = (int)v->clusters.size();
      bl.index = ci.nblocks++;
      bl.pos = k.pos; bl.end = k.end();
      v->blocks.push_back(std::move(bl));
    }
    v->clusters.push_back(ci);
  }
  return true;
}
}  // namespace sim
