#include "ops.hpp"
namespace vf {
static const std::map<std::string, std::vector<QInterfaceEngine>>& table()
{
    static const std::map<std::string, std::vector<QInterfaceEngine>> t = {
        { "cpu", { QINTERFACE_CPU } },
        { "bdt", { QINTERFACE_BDT, QINTERFACE_CPU } },
        { "bdthyb", { QINTERFACE_BDT_HYBRID, QINTERFACE_CPU } },
        { "stab", { QINTERFACE_STABILIZER } },
        { "uclif", { QINTERFACE_QUNIT_CLIFFORD } },
        { "stabhyb", { QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU } },
        { "stabhyb_bdt", { QINTERFACE_STABILIZER_HYBRID, QINTERFACE_BDT_HYBRID, QINTERFACE_CPU } },
        { "pager", { QINTERFACE_QPAGER, QINTERFACE_CPU } }, // one page
        { "pager1", { QINTERFACE_QPAGER, QINTERFACE_CPU } }, // pages of 1, 2 and 3 qubits
        { "pager2", { QINTERFACE_QPAGER, QINTERFACE_CPU } },
        { "pager3", { QINTERFACE_QPAGER, QINTERFACE_CPU } },
        { "qunit", { QINTERFACE_QUNIT, QINTERFACE_CPU } },
        { "qunit_stab", { QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU } },
        { "qunit_bdt", { QINTERFACE_QUNIT, QINTERFACE_BDT_HYBRID, QINTERFACE_CPU } },
        { "qunit_pager", { QINTERFACE_QUNIT, QINTERFACE_QPAGER, QINTERFACE_CPU } },
        { "qunit_pager2", { QINTERFACE_QUNIT, QINTERFACE_QPAGER, QINTERFACE_CPU } },
        { "tn", { QINTERFACE_TENSOR_NETWORK, QINTERFACE_CPU } },
        { "tn_qunit", { QINTERFACE_TENSOR_NETWORK, QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU } },
        { "noisy", { QINTERFACE_NOISY, QINTERFACE_CPU } },
        { "noisy_qunit", { QINTERFACE_NOISY, QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU } },
    };
    return t;
}
const std::vector<std::string>& allStacks()
{
    static std::vector<std::string> r;
    if (r.empty()) {
        for (auto& p : table()) {
            r.push_back(p.first);
        }
    }
    return r;
}
QInterfacePtr makeStack(
    const std::string& stack, int n, u64 perm, std::shared_ptr<qrack_rand_gen> rg, bool randPhase, bool doNorm, bool sparse)
{
    auto it = table().find(stack);
    if (it == table().end()) {
        throw std::runtime_error("unknown stack " + stack);
    }
    const char last = stack.back();
    const bitLenInt pageQb = (last >= '1' && last <= '9') ? (bitLenInt)(last - '0') : 0U;
    static const bool hw = getenv("VF_HWRNG") != nullptr; // (threads may share a hardware generator, only)
    return CreateQuantumInterface(it->second, (bitLenInt)n, B(perm), rg, CMPLX_DEFAULT_ARG, doNorm, randPhase, false,
        (int64_t)-1, hw, sparse, REAL1_EPSILON, std::vector<int64_t>(), pageQb);
}
} // namespace vf
