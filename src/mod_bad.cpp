// P26: calls with operands outside the register are refused by an exception and change nothing.
#include "harness.hpp"
namespace vf {
namespace {
typedef std::vector<bitLenInt> BV;
struct Bad {
    std::string name;
    std::function<bool(QInterfacePtr, Rng&, int n, std::string& what)> run; // false: nothing to do here; else the call was made
};
bitLenInt outside(Rng& g, int n)
{
    const int v[] = { n, n, n + 1, n + 2, 64, 100, 126, 127, 128, 200, 255 };
    int r = v[g.below(11)];
    return (bitLenInt)std::max(r, n);
}
// k distinct qubits, of which one is outside of the register
BV someOut(Rng& g, int n, int k)
{
    BV r;
    for (int x : g.pick(n, std::min(n, k - 1))) {
        r.push_back((bitLenInt)x);
    }
    r.insert(r.begin() + g.below(r.size() + 1), outside(g, n));
    return r;
}
void badReg(Rng& g, int n, bitLenInt& s, bitLenInt& l)
{
    switch (g.below(4)) {
    case 0:
        s = outside(g, n);
        l = (bitLenInt)g.range(1, 3);
        break;
    case 1:
        s = (bitLenInt)g.below(n);
        l = (bitLenInt)(n - s + 1);
        break;
    case 2: // the sum overflows the type
        s = (bitLenInt)g.range(1, 255);
        l = (bitLenInt)(256 - s + g.below(n));
        if (s + l <= n) {
            l = 255;
        }
        break;
    default:
        s = (bitLenInt)g.below(n);
        l = (bitLenInt)g.range(n - s + 1, 250 - s);
    }
}
std::string bs(const BV& v)
{
    std::string r = "[";
    for (auto x : v) {
        r += std::to_string((int)x) + " ";
    }
    return r + "]";
}
const std::vector<Bad>& table()
{
    static std::vector<Bad> t;
    if (!t.empty()) {
        return t;
    }
    static const complex m[4] = { complex((real1)0.6, 0), complex((real1)-0.8, 0), complex((real1)0.8, 0), complex((real1)0.6, 0) };
#define ADD(NAME, ...) t.push_back({ NAME, [](QInterfacePtr q, Rng& g, int n, std::string& what) -> bool { (void)g; (void)n; (void)what; __VA_ARGS__; return true; } })
#define ONE(NAME, ...) ADD(NAME, const bitLenInt b = outside(g, n); what = std::to_string((int)b); __VA_ARGS__)
#define TWO(NAME, ...) ADD(NAME, BV v = someOut(g, n, 2); if (v.size() < 2) return false; const bitLenInt a = v[0], b = v[1]; what = bs(v); __VA_ARGS__)
#define CTL(NAME, ...)                                                                                                                    \
    ADD(NAME " (control)", BV v = someOut(g, n, g.range(2, 4)); if (v.size() < 2) return false; if (v.back() >= n) std::swap(v[0], v.back()); const bitLenInt b = v.back(); v.pop_back(); what = bs(v) + std::to_string((int)b); const u64 p = g.below((u64)1 << v.size()); (void)p; __VA_ARGS__);   \
    ADD(NAME " (target)", BV v; for (int x : g.pick(n, g.range(1, std::min(n, 3)))) v.push_back((bitLenInt)x); const bitLenInt b = outside(g, n); what = bs(v) + std::to_string((int)b); const u64 p = g.below((u64)1 << v.size()); (void)p; __VA_ARGS__);   \
    ADD(NAME " (repeated control)", if (n < 2) return false; vi z = g.pick(n, 2); BV v{ (bitLenInt)z[0], (bitLenInt)z[0] }; const bitLenInt b = (bitLenInt)z[1]; what = bs(v) + std::to_string((int)b); const u64 p = g.below((u64)1 << v.size()); (void)p; __VA_ARGS__)
    const complex c1((real1)0.6, (real1)0.8), c2((real1)0, (real1)-1);
    (void)c1;
    (void)c2;
#define P1 complex((real1)0.6, (real1)0.8)
#define P2 complex((real1)0, (real1)-1)
    ONE("Mtrx", q->Mtrx(m, b));
    ONE("Phase", q->Phase(P1, P2, b));
    ONE("Invert", q->Invert(P1, P2, b));
    ONE("H", q->H(b));
    ONE("X", q->X(b));
    ONE("Y", q->Y(b));
    ONE("Z", q->Z(b));
    ONE("S", q->S(b));
    ONE("T", q->T(b));
    ONE("RX", q->RX((real1_f)0.7, b));
    ONE("U", q->U(b, (real1_f)0.7, (real1_f)0.3, (real1_f)0.2));
    ONE("M", q->M(b));
    ONE("ForceM", q->ForceM(b, true, true, true));
    ONE("Prob", q->Prob(b));
    ONE("SetBit", q->SetBit(b, true));
    TWO("CNOT", q->CNOT(a, b));
    TWO("CY", q->CY(a, b));
    TWO("CZ", q->CZ(a, b));
    TWO("Swap", q->Swap(a, b));
    TWO("ISwap", q->ISwap(a, b));
    TWO("IISwap", q->IISwap(a, b));
    TWO("SqrtSwap", q->SqrtSwap(a, b));
    TWO("ISqrtSwap", q->ISqrtSwap(a, b));
    TWO("FSim", q->FSim((real1_f)0.7, (real1_f)0.3, a, b));
    TWO("CProb", q->CProb(a, b));
    ADD("Swap (far)", const bitLenInt a = outside(g, n), b = (bitLenInt)(a == 255 ? 254 : a + 1); what = std::to_string((int)a); q->Swap(a, b));
    CTL("MCMtrx", q->MCMtrx(v, m, b));
    CTL("MACMtrx", q->MACMtrx(v, m, b));
    CTL("UCMtrx", q->UCMtrx(v, m, b, B(p)));
    CTL("MCPhase", q->MCPhase(v, P1, P2, b));
    CTL("MACPhase", q->MACPhase(v, P1, P2, b));
    CTL("UCPhase", q->UCPhase(v, P1, P2, b, B(p)));
    CTL("MCInvert", q->MCInvert(v, P1, P2, b));
    CTL("MACInvert", q->MACInvert(v, P1, P2, b));
    CTL("UCInvert", q->UCInvert(v, P1, P2, b, B(p)));
    CTL("UniformlyControlledSingleBit", std::vector<complex> ms; for (size_t i = 0; i < ((size_t)1 << v.size()); ++i) for (int j = 0; j < 4; ++j) ms.push_back(m[j]); q->UniformlyControlledSingleBit(v, b, ms.data()));
#define SWP(NAME)                                                                                                                          \
    ADD(#NAME " (control)", if (n < 2) return false; vi z = g.pick(n, 2); BV v{ outside(g, n) }; what = bs(v); q->NAME(v, (bitLenInt)z[0], (bitLenInt)z[1]));              \
    ADD(#NAME " (target)", if (n < 2) return false; vi z = g.pick(n, 2); BV v{ (bitLenInt)z[0] }; const bitLenInt o = outside(g, n); what = std::to_string((int)o); if (g.chance(0.5)) q->NAME(v, (bitLenInt)z[1], o); else q->NAME(v, o, (bitLenInt)z[1]))
    SWP(CSwap);
    SWP(AntiCSwap);
    SWP(CSqrtSwap);
    SWP(AntiCSqrtSwap);
    SWP(CISqrtSwap);
    SWP(AntiCISqrtSwap);
#define MASK(NAME, ...) ADD(NAME, const bitCapInt k = (pow2((bitLenInt)(n + g.below(3))) | B(g.below((u64)1 << n))); what = std::to_string(U(k)); __VA_ARGS__)
    MASK("XMask", q->XMask(k));
    MASK("YMask", q->YMask(k));
    MASK("ZMask", q->ZMask(k));
    MASK("PhaseParity", q->PhaseParity((real1_f)0.7, k));
    MASK("ProbMask", q->ProbMask(k, B(0)));
    MASK("ProbAll", q->ProbAll(k));
    MASK("GetAmplitude", q->GetAmplitude(k));
    MASK("SetAmplitude", q->SetAmplitude(k, P1));
    MASK("ProbParity", auto p = std::dynamic_pointer_cast<QParity>(q); if (!p) return false; p->ProbParity(k));
    MASK("ForceMParity", auto p = std::dynamic_pointer_cast<QParity>(q); if (!p) return false; p->ForceMParity(k, false, false));
    MASK("UniformParityRZ", auto p = std::dynamic_pointer_cast<QParity>(q); if (!p) return false; p->UniformParityRZ(k, (real1_f)0.7));
    ADD("CUniformParityRZ (control)", auto p = std::dynamic_pointer_cast<QParity>(q); if (!p) return false; BV v{ outside(g, n) }; what = bs(v); p->CUniformParityRZ(v, B(1), (real1_f)0.7));
#define BITS(NAME, ...) ADD(NAME, BV v = someOut(g, n, g.range(1, 4)); what = bs(v); __VA_ARGS__)
    BITS("M (bits)", q->M(v));
    BITS("ForceM (bits)", q->ForceM(v, std::vector<bool>(v.size(), false)));
    BITS("ExpectationBitsAll", q->ExpectationBitsAll(v));
    BITS("VarianceBitsAll", q->VarianceBitsAll(v));
    BITS("ExpectationPauliAll", q->ExpectationPauliAll(v, std::vector<Pauli>(v.size(), PauliX)));
    BITS("ExpectationBitsFactorized", q->ExpectationBitsFactorized(v, std::vector<bitCapInt>(2 * v.size(), B(1))));
    BITS("ExpectationFloatsFactorized", q->ExpectationFloatsFactorized(v, std::vector<real1_f>(2 * v.size(), (real1_f)1)));
    BITS("ProbBitsAll", std::vector<real1> o((size_t)1 << v.size()); q->ProbBitsAll(v, o.data()));
    BITS("MultiShotMeasureMask", std::vector<bitCapInt> p; for (auto x : v) { if (x > 120) return false; p.push_back(pow2(x)); } q->MultiShotMeasureMask(p, 10));
    BITS("MultiShotMeasureMask (array)", std::vector<bitCapInt> p; for (auto x : v) { if (x > 120) return false; p.push_back(pow2(x)); } std::vector<unsigned long long> a(10); q->MultiShotMeasureMask(p, 10, a.data()));
#define REG(NAME, ...) ADD(NAME, bitLenInt s, l; badReg(g, n, s, l); what = std::to_string((int)s) + "+" + std::to_string((int)l); __VA_ARGS__)
    REG("ProbReg", q->ProbReg(s, l, B(0)));
    REG("MReg", q->MReg(s, l));
    REG("ForceMReg", q->ForceMReg(s, l, B(0), true, true));
    REG("Dispose", q->Dispose(s, l));
    REG("Dispose (perm)", q->Dispose(s, l, B(0)));
    REG("Decompose", q->Decompose(s, l));
    REG("INC", q->INC(B(1), s, l));
    REG("DEC", q->DEC(B(1), s, l));
    REG("ROL", q->ROL(1, s, l));
    REG("ROR", q->ROR(1, s, l));
    REG("SetReg", q->SetReg(s, l, B(1)));
    REG("QFT", q->QFT(s, l));
    ADD("INC (1 past)", const bitLenInt s = (bitLenInt)g.below(n); q->INC(B(1), s, (bitLenInt)(n - s + 1)));
    ADD("Allocate", const bitLenInt s = (bitLenInt)g.range(n + 1, 200); what = std::to_string((int)s); q->Allocate(s, 1));
    ADD("Compose", const bitLenInt s = (bitLenInt)g.range(n + 1, 200); what = std::to_string((int)s); q->Compose(q->Clone(), s));
#define ALU(NAME, ...) ADD(NAME, auto a = std::dynamic_pointer_cast<QAlu>(q); if (!a) return false; __VA_ARGS__)
    ALU("CINC (control)", BV v{ outside(g, n) }; what = bs(v); q->CINC(B(1), 0, (bitLenInt)n, v));
    ALU("CINC (register)", if (n < 2) return false; BV v{ 0 }; q->CINC(B(1), 1, (bitLenInt)n, v));
    ALU("INCC", if (n < 2) return false; const bitLenInt o = outside(g, n); what = std::to_string((int)o); a->INCC(B(1), 0, (bitLenInt)(n - 1), o));
    ALU("DECC", if (n < 2) return false; const bitLenInt o = outside(g, n); what = std::to_string((int)o); a->DECC(B(1), 0, (bitLenInt)(n - 1), o));
    ALU("INCS", if (n < 2) return false; const bitLenInt o = outside(g, n); what = std::to_string((int)o); a->INCS(B(1), 0, (bitLenInt)(n - 1), o));
    ALU("MUL", if (n < 2) return false; a->MUL(B(3), 0, (bitLenInt)g.range(1, n), (bitLenInt)n));
    ALU("DIV", if (n < 2) return false; a->DIV(B(3), 0, (bitLenInt)g.range(1, n), (bitLenInt)n));
    ALU("MULModNOut", if (n < 2) return false; a->MULModNOut(B(3), B(4), 0, (bitLenInt)(n - 1), 2));
    ALU("IMULModNOut", if (n < 2) return false; a->IMULModNOut(B(3), B(4), 0, (bitLenInt)(n - 1), 2));
    ALU("POWModNOut", if (n < 2) return false; a->POWModNOut(B(3), B(4), 0, (bitLenInt)(n - 1), 2));
    ALU("CMUL (control)", if (n < 2) return false; BV v{ outside(g, n) }; what = bs(v); a->CMUL(B(3), 0, 1, 1, v));
    ALU("CMULModNOut (control)", if (n < 2) return false; BV v{ outside(g, n) }; what = bs(v); a->CMULModNOut(B(3), B(2), 0, 1, 1, v));
    ALU("Hash", std::vector<unsigned char> h((size_t)256); for (int i = 0; i < 256; ++i) h[i] = (unsigned char)i; bitLenInt s = (bitLenInt)g.below(n); a->Hash(s, (bitLenInt)(n - s + 1), h.data()));
    ALU("IndexedLDA", if (n < 2) return false; std::vector<unsigned char> h((size_t)256); a->IndexedLDA(0, 1, (bitLenInt)(n - 1), 2, h.data(), false));
    ALU("PhaseFlipIfLess", bitLenInt s = (bitLenInt)g.below(n); a->PhaseFlipIfLess(B(1), s, (bitLenInt)(n - s + 1)));
    ALU("CPhaseFlipIfLess", if (n < 2) return false; const bitLenInt o = outside(g, n); a->CPhaseFlipIfLess(B(1), 0, 1, o));
    return t;
}
} // namespace
static RegCheck rBad("bad", [](Case& c) {
    registerAll();
    Rng& g = c.g;
    static const std::vector<std::string> stacks = { "cpu", "pager", "pager1", "qunit", "qunit_pager", "stab", "uclif", "noisy" };
    static const char* only = getenv("VF_STACKS");
    const std::string stack = only ? only : stacks[g.below(stacks.size())];
    const bool cliff = stack == "stab" || stack == "uclif";
    const int n = g.range(1, 6);
    auto rg = std::make_shared<qrack_rand_gen>();
    rg->seed((uint32_t)g.next());
    QInterfacePtr q = makeStack(stack, n, 0, rg, g.chance(0.5));
    if (stack == "noisy") {
        q->SetNoiseParameter(0);
    }
    std::string bad;
    auto note = [&](const std::string& s) {
        c.log.push_back(s);
        if (c.verbose) {
            fprintf(stderr, "%s\n", s.c_str());
        }
    };
    note("stack " + stack + " n=" + std::to_string(n));
    u64 h = hashStr(c.log.back());
    Ref r(n);
    auto gate = [&]() {
        const int t = (int)g.below(n);
        const double k = std::sqrt(0.5);
        if (n > 1 && g.chance(0.4)) {
            vi v = g.pick(n, 2);
            const cd X[4] = { 0, 1, 1, 0 };
            q->CNOT((bitLenInt)v[0], (bitLenInt)v[1]);
            r.cmtrx({ v[0] }, X, v[1]);
        } else if (cliff || g.chance(0.5)) {
            const cd H[4] = { k, k, k, -k }, S[4] = { 1, 0, 0, cd(0, 1) };
            q->H((bitLenInt)t);
            r.mtrx(H, t);
            q->S((bitLenInt)t);
            r.mtrx(S, t);
        } else {
            const double a = g.uni(-3, 3);
            const cd m[4] = { std::cos(a / 2), -std::sin(a / 2), std::sin(a / 2), std::cos(a / 2) };
            q->RY((real1_f)a, (bitLenInt)t);
            r.mtrx(m, t);
        }
    };
    const int steps = g.range(1, 12);
    for (int s = 0; s < steps && bad.empty(); ++s) {
        for (int i = g.range(0, 4); i-- > 0;) {
            gate();
        }
        static const char* onlyOp = getenv("VF_BADOP");
        const Bad& b = table()[onlyOp ? (u64)atoi(onlyOp) % table().size() : g.below(table().size())];
        std::string what;
        const u64 gs = g.s;
        bool threw = false, ran = false;
        std::string msg;
        try {
            ran = b.run(q, g, n, what);
        } catch (const std::exception& e) {
            threw = true;
            msg = e.what();
        }
        (void)gs;
        if (!ran && !threw) {
            continue;
        }
        const std::string d = b.name + " " + what;
        note(d + (threw ? " -> " + msg : " -> no exception"));
        h = mix(h, hashStr(d));
        ++c.cnt["invalid calls"];
        ++c.cnt["refused: " + b.name];
        const std::string key = stack + ":" + b.name;
        if (!threw) {
            c.fail(key, key + " with " + what + " outside of " + std::to_string(n) + " qubits is not refused");
            break;
        }
        if ((int)q->GetQubitCount() != n) {
            c.fail(key + ":size", key + " with " + what + " was refused but changed the number of qubits to " + std::to_string((int)q->GetQubitCount()));
            break;
        }
        std::string e;
        try {
            e = compareQ(q, r, g.chance(0.5), 1e-3);
        } catch (const std::exception& ex) {
            e = std::string("the state cannot be read: ") + ex.what();
        }
        c.states.insert(stateHash(r.v));
        if (!e.empty()) {
            c.fail(key + ":state", key + " with " + what + " was refused (" + msg + "), but then " + e);
            break;
        }
    }
    c.programs.insert(h);
});
} // namespace vf
