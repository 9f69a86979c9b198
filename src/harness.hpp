// Case runner shared by all monitors.
#pragma once
#include "ops.hpp"
#include <unordered_set>
namespace vf {
struct Case {
    Rng g;
    u64 seed, idx;
    bool verbose = false;
    bool thorough = false;
    // results
    std::string violation; // empty = held
    std::string key; // short classification (stack, operation) used to compare with the known-findings list
    std::vector<std::string> log; // what was executed, for the replay file
    std::map<std::string, long>& cnt;
    std::unordered_set<u64>& states; // distinct observed states / histories
    std::unordered_set<u64>& programs; // distinct programs / inputs
    Case(u64 s, u64 i, u64 salt, std::map<std::string, long>& c, std::unordered_set<u64>& st, std::unordered_set<u64>& pr)
        : g(mix(mix(s, i), salt))
        , seed(s)
        , idx(i)
        , cnt(c)
        , states(st)
        , programs(pr)
    {
    }
    void fail(const std::string& k, const std::string& v)
    {
        if (violation.empty()) {
            violation = v;
            key = k;
        }
    }
};
typedef std::function<void(Case&)> CaseFn;
std::map<std::string, CaseFn>& checks();
struct RegCheck {
    RegCheck(const char* n, CaseFn f) { checks()[n] = f; }
};
u64 stateHash(const std::vector<cd>& v);

// ---- differential runs
struct Plan {
    std::vector<std::string> stacks;
    std::vector<std::pair<unsigned, double>> mix; // tag mask -> weight
    int minN = 1, maxN = 8;
    int minOps = 8, maxOps = 60;
    std::vector<int> levels{ 2, 2, 2, 1, 0 };
    double superpose = 0.7; // chance to start from a superposition
    double tol = 1e-3; // infidelity tolerance
    std::function<bool(const std::string& stack, const OpDef&)> allow; // extra filter
    std::function<void(QInterfacePtr, const std::string&, Rng&)> setup; // after construction
    bool sparseToo = false;
    bool twin = false; // run every program again from the same seed and compare the two runs
};
void runDiff(Case& c, const Plan& p);
} // namespace vf
