// Seeded WebVTT texts with the cues they hold.
#ifndef SIM_VTTGEN_H_
#define SIM_VTTGEN_H_
#include "core.h"

namespace sim {
struct VCue {
  std::string id; long long start = 0, stop = 0;
  std::vector<std::pair<std::string, std::string>> settings;
  std::vector<std::string> payload;
  bool operator==(const VCue& o) const { return id == o.id && start == o.start && stop == o.stop && settings == o.settings && payload == o.payload; }
};
std::string DrawText(size_t len, const char* extra);
struct VttDoc { std::string text; std::vector<VCue> cues; };
// rising: starts do not decrease and stops follow starts (what the sample muxer asks for)
VttDoc DrawVtt(bool rising, int max_cues, long long max_gap);
}  // namespace sim
#endif
