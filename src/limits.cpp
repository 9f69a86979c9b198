// Operations left out on a stack because the real code is known to be wrong there (each has a probe and a line in
// known-findings.txt) or because the interface documents that it does not support them.
#include "harness.hpp"
namespace vf {
static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
bool limited(const std::string& stack, const Op& o, int n)
{
    const bool generic = !(stack == "cpu" || stack.compare(0, 5, "pager") == 0 || stack.compare(0, 7, "stabhyb") == 0);
    const std::string& nm = o.name;
    if (generic && (nm == "MULModNOut" || nm == "CMULModNOut") && (o.q[1] & (o.q[1] - 1))) {
        return true; // finding mulmodn-generic: the gate-level circuit is wrong unless the modulus is a power of two
    }
    (void)n;
    (void)has;
    return false;
}
} // namespace vf
