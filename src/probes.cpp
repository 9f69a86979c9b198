// Probes: each shows one recorded defect of the real code (a line "finding:" of known-findings.txt). A probe "fails"
// while the defect is there.
#include "harness.hpp"
namespace vf {
static RegCheck rMulModN("probe:mulmodn-generic", [](Case& c) {
    // 2 * 2 mod 3 = 1 on a stack that builds modular multiplication from gates
    for (bitCapIntOcl in = 0; in < 4; ++in) {
        QInterfacePtr q = makeStack("qunit", 4, (u64)in, std::make_shared<qrack_rand_gen>(1), false);
        std::dynamic_pointer_cast<QAlu>(q)->MULModNOut(B(2), B(3), 0, 2, 2);
        const u64 want = in | (((2 * in) % 3) << 2);
        if (!(q->ProbAll(B(want)) > 0.99)) {
            c.fail("mulmodn-generic", "MULModNOut(2, mod 3) of a basis state is not 2 * x mod 3");
            return;
        }
    }
});
} // namespace vf
