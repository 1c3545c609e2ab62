// WebM document model: schema, random document generator and an independent
// whole-buffer reference parser producing the expected notification history.
#ifndef SIM_WDOC_H_
#define SIM_WDOC_H_
#include "core.h"

namespace sim {

enum class T : uint8_t { kMaster, kUInt, kSInt, kFloat, kString, kBinary, kBool,
                         kDate, kId, kSimpleBlock, kBlock, kVirtual, kVoid, kUnknown };
enum class Notify : uint8_t { kNone, kEbml, kSegment, kSeek, kInfo, kCluster,
                              kBlockGroup, kTrackEntry, kCuePoint, kEdition, kTag };
struct Field {
  uint32_t id; T type; bool rep; const char* name;
  uint64_t du; const char* ds; double dd;
};
struct Def {
  uint32_t id; const char* name; Notify notify; bool has_value;
  std::vector<Field> fields;
  const Field* Find(uint32_t id) const {
    for (auto& f : fields) if (f.id == id) return &f;
    return nullptr;
  }
};
const Def* DefById(uint32_t id);          // master definitions
const std::vector<Def>& AllDefs();
const uint64_t kUnkSize = ~0ULL;
const uint32_t kUnkHdr = ~0U;
const uint32_t kIdVoid = 0xEC, kIdEbml = 0x1A45DFA3, kIdSegment = 0x18538067,
               kIdCluster = 0x1F43B675, kIdSimpleBlock = 0xA3,
               kIdBlockGroup = 0xA0, kIdBlock = 0xA1;

struct Meta { uint32_t id; uint32_t hs; uint64_t size; uint64_t pos; };
inline bool operator==(const Meta& a, const Meta& b) {
  return a.id == b.id && a.hs == b.hs && a.size == b.size && a.pos == b.pos;
}
std::string MetaStr(const Meta& m);

enum class K : uint8_t { kElementBegin, kUnknown, kEbml, kVoid, kSegmentBegin, kSeek,
  kInfo, kClusterBegin, kSimpleBlockBegin, kSimpleBlockEnd, kBlockGroupBegin,
  kBlockBegin, kBlockEnd, kBlockGroupEnd, kFrame, kClusterEnd, kTrackEntry,
  kCuePoint, kEdition, kTag, kSegmentEnd };
const char* KName(K k);
struct REvent {
  K k; Meta m; std::string val; uint64_t fpos = 0, fsize = 0;
  uint64_t at = 0;   // reference only: bytes consumed when it fires
};
std::string EventStr(const REvent& e);

// Deterministic skip plan shared by the model and the real callback.
struct SkipPlan {
  uint64_t seed = 0; uint32_t den = 0;  // den 0: never skip
  bool Skip(K k, const Meta& m) const;
};

struct RefResult {
  std::vector<REvent> events;
  int32_t status = 0;         // webm::Status code of the end state
  bool huge = false;          // needs an allocation above the cap
  uint64_t consumed = 0;
};
// Parses bytes [start, b.size()) whose first byte is at absolute position
// base + start. did_seek: start in the middle of a document.
RefResult RefParse(const Bytes& b, uint64_t base, uint64_t start, bool did_seek,
                   const SkipPlan& plan);

// ---- value rendering shared with the real callback -----------------------
std::string RU(uint64_t v);
std::string RS(int64_t v);
std::string RD(double v);
std::string RBytes(const void* p, size_t n);

// ---- generator -----------------------------------------------------------
struct Node {
  uint32_t id = 0; T type = T::kMaster; const Def* def = nullptr;
  std::vector<std::unique_ptr<Node>> kids;
  Bytes payload;              // leaf body
  bool unknown_size = false;
  int size_len = 0;           // 0 = minimal
  // filled by Serialise
  uint64_t pos = 0, hs = 0, body = 0;
  uint64_t lie_size = kUnkSize;  // declared size override (malformed docs)
  Node* parent = nullptr;
};
struct DocOpts {
  int max_clusters = 3;
  int max_payload = 600;
  bool allow_unknown_size = true;
  bool allow_unknown_elems = true;
  bool chained = true;
  bool big = false;
  int max_depth = 26;         // recursion of ChapterAtom / SimpleTag (27+ is refused)
};
std::unique_ptr<Node> GenDocument(const DocOpts& o);   // pseudo-root, kids = level 0
Bytes Serialise(Node* root);
void Flatten(Node* n, std::vector<Node*>* out);        // document order, w/o root
bool IsChildOf(const Def* d, uint32_t id);

// EBML writing helpers
void PutId(Bytes* b, uint32_t id);
int IdLen(uint32_t id);
void PutSize(Bytes* b, uint64_t v, int len);           // len 0 = minimal
void PutUnknownSize(Bytes* b, int len);
int MinSizeLen(uint64_t v);
void PutUIntBE(Bytes* b, uint64_t v, int len);

}  // namespace sim
#endif
