// Instances of the library side by side: whole scenarios of the other
// properties, interleaved at every I/O step.
#include "core.h"

namespace sim {
namespace {
void C21() {
  static const char* all[] = {"C01", "C07", "C11", "C20", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10",
                              "C12", "C13", "C14", "C16", "C17", "C18", "C19", "C07", "C01", "C11", "C08"};
  std::vector<std::string> who;
  const uint64_t n = Range(2, 3, "sb.n");
  const bool same = Chance(1, 3, "sb.same");   // instances of one kind
  for (uint64_t i = 0; i < n; ++i) who.push_back(same && i ? who[0] : all[Draw(sizeof all / sizeof *all, "sb.kind")]);
  SideBySide(who, "instances");
}
SIM_SCENARIO("C21", C21);
}  // namespace
}  // namespace sim
