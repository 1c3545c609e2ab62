// Running a command-line program of the repository inside the simulation.
#ifndef SIM_TOOLS_H_
#define SIM_TOOLS_H_
#include "core.h"
#include "simfs.h"

namespace sim {
struct ToolRun { int rc; std::string out; };
ToolRun RunTool(const std::string& name, const std::vector<std::string>& args);
FsPlan DrawFaults(uint64_t bytes);
}  // namespace sim
#endif
