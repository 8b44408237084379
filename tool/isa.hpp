#pragma once
#include "core.hpp"
namespace lva {
struct IsaEntry { const char *name; uint32_t mask, match; };
const std::vector<IsaEntry> &isaEntries();
bool isaFits(const std::string &d, StringRef spec); // a descriptor's name against an encoding's
}
