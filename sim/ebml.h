// Small strict EBML walker used to judge bytes written by the muxer. It shares
// no code with the library.
#ifndef SIM_EBML_H_
#define SIM_EBML_H_
#include "core.h"

namespace sim {

struct El {
  uint32_t id = 0;
  uint64_t pos = 0, hdr = 0, size = 0;   // size excludes the header
  bool unknown = false;
  bool cut = false;                      // tolerant mode: body is truncated
  std::vector<El> kids;
  uint64_t body() const { return pos + hdr; }
  uint64_t end() const { return pos + hdr + size; }
  const El* Find(uint32_t id) const {
    for (auto& k : kids) if (k.id == id) return &k;
    return nullptr;
  }
  int CountOf(uint32_t id) const { int n = 0; for (auto& k : kids) n += k.id == id; return n; }
};

// Parses the whole buffer. Strict: every child must end exactly inside its
// parent and children must tile the parent; returns false with *err set.
// Tolerant: data may end anywhere; only whole leaves are kept.
bool ParseEbml(const Bytes& b, bool tolerant, El* root, std::string* err);

uint64_t ElUInt(const Bytes& b, const El& e);
int64_t ElSInt(const Bytes& b, const El& e);
double ElFloat(const Bytes& b, const El& e);
std::string ElStr(const Bytes& b, const El& e);

// One block (frame) read back from a file.
struct Blk {
  uint64_t track = 0; int64_t tc = 0;    // absolute timecode (ticks)
  bool key = false, simple = false;
  Bytes data;
  bool has_add = false; uint64_t add_id = 0; Bytes add;
  bool has_discard = false; int64_t discard = 0;
  bool has_dur = false; uint64_t dur = 0;
  bool has_ref = false;
  int cluster = 0, index = 0;            // index: 0-based block number
  uint64_t pos = 0, end = 0;             // element extent
};
struct ClusterInfo { uint64_t pos = 0, tc = 0, end = 0; bool has_tc = false, unknown = false; int nblocks = 0; };
struct FileView {
  El root;
  const El* ebml = nullptr; const El* segment = nullptr;
  std::vector<Blk> blocks; std::vector<ClusterInfo> clusters;
};
// Returns false with *err when the bytes are not a well-formed document.
bool ViewFile(const Bytes& b, bool tolerant, FileView* v, std::string* err);

}  // namespace sim
#endif
