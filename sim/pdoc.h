// Documents for the pull parser (mkvparser) with ground truth: drawn from the
// seed, serialised, and described by the lines a reader must observe.
#ifndef SIM_PDOC_H_
#define SIM_PDOC_H_
#include "core.h"

namespace sim {

struct PFrame { uint64_t pos, len; };
struct PBlock {
  int cluster = 0, index = 0;              // index inside the cluster
  int track = 0; int16_t rel = 0; bool key = false, invisible = false, group = false;
  int lacing = 0; std::vector<PFrame> frames;
  int64_t prev = 1, next = 0, dur = -1, discard = 0;
  uint64_t elpos = 0, elend = 0;
};
struct PCluster { uint64_t pos = 0, tc = 0, end = 0, body = 0; bool unknown = false; std::vector<int> blocks; };
struct PCuePos { int track; uint64_t pos; uint64_t block; bool has_block; int block_idx; };
struct PCue { uint64_t time; std::vector<PCuePos> tp; uint64_t pos, size; };
struct PTrack { int number, type; };
struct PDoc {
  Bytes b;
  uint64_t scale = 1000000;
  std::vector<std::string> meta;           // observable header values, in order
  std::vector<std::pair<uint64_t, uint64_t>> enc_ranges;   // ContentEncodings bodies
  std::vector<PTrack> tracks;
  std::vector<PCluster> clusters;          // those with at least one block
  std::vector<PBlock> blocks;
  std::vector<PCue> cues;
  bool has_cues = false, cues_front = false;
  uint64_t cues_pos = 0, cues_end = 0;     // absolute
  uint64_t seg_body = 0, seg_pos = 0; bool seg_unknown = false;
  uint64_t first_cluster = 0;              // absolute
  std::vector<uint64_t> cluster_starts;    // every cluster, also empty ones
  bool in_order = true;                    // cluster timecodes strictly increase, no negative times
};
struct PDocOpts {
  int max_clusters = 6, max_blocks = 8;
  int huge = 0;                            // 1 a cluster with very many blocks, 2 very many clusters and cue points
  bool meta = true, lacing = true, unknown_sizes = true, cues = true, empty_clusters = true, tidy_times = false, trailing = true;
  bool wild = false;                       // extreme time scales and times (for hostile files)
  int tree_damage = 0;                     // damage the element tree in so many places; only the bytes of the result count
};
PDoc DrawPDoc(const PDocOpts& o);
void MutateBytes(Bytes* doc, int n);        // damages it in n places
extern const uint32_t kHostileIds[];
extern const size_t kNumHostileIds;
Bytes DrawHostile();                       // scen_hostile.cc: arbitrary bytes

}  // namespace sim
#endif
