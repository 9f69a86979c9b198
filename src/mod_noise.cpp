// P23: the noise layer. Every gate on a noisy simulator is followed by a weak X-axis measurement of the qubits it acts on: the
// monitor follows the trajectory by finding the Kraus branch that the simulator took, and judges how often each is taken.
#include "harness.hpp"
#include <cstring>
namespace vf {
namespace {
typedef std::vector<bitLenInt> BV;
struct Branch {
    Ref r;
    double p;
    int bits;
};
const double SQ = std::sqrt(0.5);
void had(Ref& r, int q)
{
    const cd h[4] = { SQ, SQ, SQ, -SQ };
    r.mtrx(h, q);
}
// the ensemble after noise of strength lam on q (in place), unnormalized states folded into p
std::vector<Branch> noise(const std::vector<Branch>& in, int q, double lam)
{
    std::vector<Branch> out;
    for (const Branch& b : in) {
        Ref x = b.r;
        had(x, q);
        for (int k = 0; k < 2; ++k) {
            Ref y = x;
            const double s = std::sqrt(lam); // weight of the |1> component that is revealed
            y.phase([&](u64 i) { return cd(((i >> q) & 1) ? std::sqrt(k ? s : std::max(0.0, 1 - s)) : (k ? 0.0 : 1.0), 0); });
            const double p = y.norm2();
            if (p < 1e-9) {
                continue;
            }
            y.normalize();
            had(y, q);
            out.push_back({ y, b.p * p, (b.bits << 1) | k });
        }
    }
    return out;
}
std::vector<cd> unitary(Rng& g)
{
    const double a = g.uni(0, 6.28), b = g.uni(0, 6.28), c = g.uni(0, 6.28), t = g.uni(0, 1.57);
    const cd i(0, 1);
    return { std::polar(std::cos(t), c), std::polar(std::sin(t), a), -std::polar(std::sin(t), b), std::polar(std::cos(t), a + b - c) };
}
std::vector<complex> toC(const std::vector<cd>& m)
{
    std::vector<complex> o;
    for (auto& x : m) {
        o.push_back(C(x));
    }
    return o;
}
struct Sim {
    QInterfacePtr q;
    Ref r{ 0 };
    double lam = 0, lf = 0;
};
// One random gate on the simulator and its model (ideal part); returns the qubits it acts on, in terms of noise.
vi gate(Rng& g, Sim& s, std::string& what)
{
    const int n = s.r.n;
    vi qs(n);
    for (int i = 0; i < n; ++i) {
        qs[i] = i;
    }
    for (int i = n - 1; i > 0; --i) {
        std::swap(qs[i], qs[(int)g.below(i + 1)]);
    }
    const bitLenInt t = (bitLenInt)qs[0];
    const std::vector<cd> u = unitary(g);
    const std::vector<complex> uc = toC(u);
    std::ostringstream o;
    for (int x : qs) {
        o << x << " ";
    }
    const std::string order = o.str();
    auto nm = [&](const char* x) { what = std::string(x) + " [" + order + "]"; };
    switch (g.below(n > 1 ? (n > 2 ? 20 : 17) : 8)) {
    case 0:
        nm("Mtrx");
        s.q->Mtrx(uc.data(), t);
        s.r.mtrx(u.data(), t);
        return { t };
    case 1: {
        nm("Phase");
        const cd a = std::polar(1.0, g.uni(0, 6.28)), b = std::polar(1.0, g.uni(0, 6.28)), m[4] = { a, 0, 0, b };
        s.q->Phase(C(a), C(b), t);
        s.r.mtrx(m, t);
        return { t };
    }
    case 2: {
        nm("Invert");
        const cd a = std::polar(1.0, g.uni(0, 6.28)), b = std::polar(1.0, g.uni(0, 6.28)), m[4] = { 0, a, b, 0 };
        s.q->Invert(C(a), C(b), t);
        s.r.mtrx(m, t);
        return { t };
    }
    case 3:
        nm("H");
        s.q->H(t);
        had(s.r, t);
        return { t };
    case 4: {
        nm("X");
        const cd m[4] = { 0, 1, 1, 0 };
        s.q->X(t);
        s.r.mtrx(m, t);
        return { t };
    }
    case 5: {
        nm("RY");
        const double a = g.uni(-3, 3);
        const cd m[4] = { std::cos(a / 2), -std::sin(a / 2), std::sin(a / 2), std::cos(a / 2) };
        s.q->RY((real1_f)a, t);
        s.r.mtrx(m, t);
        return { t };
    }
    case 6: {
        u64 mask = g.below(((u64)1 << n) - 1) + 1;
        what = "XMask " + std::to_string(mask);
        s.q->XMask(B(mask));
        vi w;
        s.r.permute([&](u64 i) { return i ^ mask; });
        for (int i = 0; i < n; ++i) {
            if ((mask >> i) & 1) {
                w.push_back(i);
            }
        }
        return w;
    }
    case 7: {
        u64 mask = g.below(((u64)1 << n) - 1) + 1;
        const double a = g.uni(-3, 3);
        what = "PhaseParity " + std::to_string(mask);
        s.q->PhaseParity((real1_f)a, B(mask));
        s.r.phase([&](u64 i) { return std::polar(1.0, Ref::parity(i & mask) ? a / 2 : -a / 2); });
        vi w;
        for (int i = 0; i < n; ++i) {
            if ((mask >> i) & 1) {
                w.push_back(i);
            }
        }
        return w;
    }
    case 8:
    case 9: {
        const bool anti = g.chance(0.4);
        const int k = g.range(1, std::min(3, n - 1));
        vi c(qs.begin() + 1, qs.begin() + 1 + k);
        nm(anti ? "MACMtrx" : "MCMtrx");
        anti ? s.q->MACMtrx(Q(c), uc.data(), t) : s.q->MCMtrx(Q(c), uc.data(), t);
        s.r.mtrx(c, anti ? 0 : ~(u64)0, u.data(), t);
        return { t };
    }
    case 10: {
        nm("CNOT");
        const cd m[4] = { 0, 1, 1, 0 };
        s.q->CNOT((bitLenInt)qs[1], t);
        s.r.cmtrx({ qs[1] }, m, t);
        return { t };
    }
    case 11: {
        nm("CZ");
        const cd m[4] = { 1, 0, 0, -1 };
        s.q->CZ((bitLenInt)qs[1], t);
        s.r.cmtrx({ qs[1] }, m, t);
        return { t };
    }
    case 12: {
        nm("Swap");
        const cd m[16] = { 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1 };
        s.q->Swap(t, (bitLenInt)qs[1]);
        s.r.mtrx4({}, 0, m, qs[0], qs[1]);
        return { qs[0], qs[1] };
    }
    case 13: {
        const bool inv = g.chance(0.5);
        nm(inv ? "IISwap" : "ISwap");
        const cd i(0, inv ? -1 : 1);
        const cd m[16] = { 1, 0, 0, 0, 0, 0, i, 0, 0, i, 0, 0, 0, 0, 0, 1 };
        inv ? s.q->IISwap(t, (bitLenInt)qs[1]) : s.q->ISwap(t, (bitLenInt)qs[1]);
        s.r.mtrx4({}, 0, m, qs[0], qs[1]);
        return { qs[0], qs[1] };
    }
    case 14: {
        const bool inv = g.chance(0.5);
        nm(inv ? "ISqrtSwap" : "SqrtSwap");
        const cd a(0.5, inv ? -0.5 : 0.5), b = std::conj(a);
        const cd m[16] = { 1, 0, 0, 0, 0, a, b, 0, 0, b, a, 0, 0, 0, 0, 1 };
        inv ? s.q->ISqrtSwap(t, (bitLenInt)qs[1]) : s.q->SqrtSwap(t, (bitLenInt)qs[1]);
        s.r.mtrx4({}, 0, m, qs[0], qs[1]);
        return { qs[0], qs[1] };
    }
    case 15:
    case 16: {
        const int k = g.range(1, std::min(2, n - 1));
        vi c(qs.begin() + 1, qs.begin() + 1 + k);
        std::vector<complex> tab;
        nm("UniformlyControlledSingleBit");
        Ref o = s.r;
        for (u64 p = 0; p < ((u64)1 << k); ++p) {
            const std::vector<cd> m = unitary(g);
            for (auto& x : m) {
                tab.push_back(C(x));
            }
            o.mtrx(c, p, m.data(), t);
        }
        s.r = o;
        s.q->UniformlyControlledSingleBit(Q(c), t, tab.data());
        vi w = c;
        w.insert(w.begin(), t);
        return w;
    }
    default: {
        const int kind = (int)g.below(3);
        const bool anti = g.chance(0.4);
        const int k = g.range(1, n - 2);
        vi c(qs.begin() + 2, qs.begin() + 2 + k);
        const cd a(0.5, 0.5), b = std::conj(a), a2(0.5, -0.5), b2 = std::conj(a2);
        const cd sw[16] = { 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1 };
        const cd sq[16] = { 1, 0, 0, 0, 0, a, b, 0, 0, b, a, 0, 0, 0, 0, 1 };
        const cd is[16] = { 1, 0, 0, 0, 0, a2, b2, 0, 0, b2, a2, 0, 0, 0, 0, 1 };
        const bitLenInt x = (bitLenInt)qs[0], y = (bitLenInt)qs[1];
        if (kind == 0) {
            nm(anti ? "AntiCSwap" : "CSwap");
            anti ? s.q->AntiCSwap(Q(c), x, y) : s.q->CSwap(Q(c), x, y);
        } else if (kind == 1) {
            nm(anti ? "AntiCSqrtSwap" : "CSqrtSwap");
            anti ? s.q->AntiCSqrtSwap(Q(c), x, y) : s.q->CSqrtSwap(Q(c), x, y);
        } else {
            nm(anti ? "AntiCISqrtSwap" : "CISqrtSwap");
            anti ? s.q->AntiCISqrtSwap(Q(c), x, y) : s.q->CISqrtSwap(Q(c), x, y);
        }
        s.r.mtrx4(c, anti ? 0 : ~(u64)0, kind == 0 ? sw : (kind == 1 ? sq : is), qs[0], qs[1]);
        vi w{ qs[0], qs[1] };
        w.insert(w.end(), c.begin(), c.end());
        return w;
    }
    }
}
} // namespace
static RegCheck rNoise("noise", [](Case& c) {
    Rng& g = c.g;
    static const std::vector<std::vector<QInterfaceEngine>> engs = { { QINTERFACE_NOISY, QINTERFACE_CPU },
        { QINTERFACE_NOISY, QINTERFACE_CPU }, { QINTERFACE_NOISY, QINTERFACE_QUNIT, QINTERFACE_CPU },
        { QINTERFACE_NOISY, QINTERFACE_QPAGER, QINTERFACE_CPU } };
    const size_t e = (size_t)g.below(engs.size());
    auto rg = std::make_shared<qrack_rand_gen>();
    rg->seed((uint32_t)g.next());
    auto lamOf = [&]() { return g.chance(0.1) ? 0.0 : (g.chance(0.1) ? 1.0 : (g.chance(0.3) ? g.uni(0.001, 0.05) : g.uni(0.05, 0.95))); };
    Sim s;
    const int n0 = g.range(1, 4);
    s.q = CreateQuantumInterface(engs[e], (bitLenInt)n0, B(0), rg, CMPLX_DEFAULT_ARG, false, true, false, (int64_t)-1, false, false);
    s.r = Ref(n0);
    static const char* env = getenv("QRACK_GATE_DEPOLARIZATION"); // overrides every simulator's own parameter
    s.lam = lamOf();
    s.q->SetNoiseParameter((real1_f)s.lam);
    if (env) {
        s.lam = atof(env);
    }
    char b[100];
    snprintf(b, sizeof b, "engine %d, %d qubits, noise %g", (int)e, n0, s.lam);
    c.log.push_back(b);
    std::string prog = b;
    double S = 0, V = 0;
    const int steps = g.range(6, 50);
    auto check = [&](const std::string& what, const vi& w) {
        // candidates
        std::vector<Branch> bs{ { s.r, 1, 0 } };
        if (s.lam > 0) {
            for (int q : w) {
                bs = noise(bs, q, s.lam);
                s.lf += std::log(1 - s.lam);
            }
        }
        QInterfacePtr k = g.chance(0.5) ? s.q->Clone() : s.q;
        const std::vector<cd> st = readState(k);
        double nrm = 0;
        for (auto& x : st) {
            nrm += std::norm(x);
        }
        c.states.insert(stateHash(st));
        if (c.verbose) {
            fprintf(stderr, "%s: norm %.7f, %zu candidates\n", what.c_str(), nrm, bs.size());
        }
        if (std::abs(nrm - 1) > 5e-3 && std::abs(nrm - 1) < 0.1 && (int)c.log.size() > 8) {
            s.q = nullptr; // rounding errors, amplified by repeated collapses: stop quietly
            ++c.cnt["ended by rounding"];
            return;
        }
        if (!(std::abs(nrm - 1) < 5e-3)) {
            c.fail("norm", "after " + what + " the state's norm is " + f2s(nrm));
            return;
        }
        size_t best = 0;
        double f = -1, f2 = -1;
        for (size_t i = 0; i < bs.size(); ++i) {
            const double x = bs[i].r.fidelity(st);
            if (x > f) {
                f2 = f;
                f = x;
                best = i;
            } else {
                f2 = std::max(f2, x);
            }
        }
        c.cnt["noise channels followed"] += (s.lam > 0) ? (long)w.size() : 0;
        if (!(f > 1 - 2e-3)) {
            c.fail(what.substr(0, what.find(' ')), "after " + what + " with noise " + f2s(s.lam) + " the state is in none of the " +
                    std::to_string(bs.size()) + " branches of the channel; the best has fidelity " + f2s(f));
            return;
        }
        if (w.size() == 1 && bs.size() == 2 && f2 < 0.99) { // an unambiguous choice
            const double p = bs[best].p;
            if (p < 1e-6) {
                c.fail("impossible", "after " + what + " the simulator took a branch of probability " + f2s(p));
            }
            S += (bs[best].bits & 1) - ((bs[best].bits & 1) ? p : 1 - p);
            V += p * (1 - p);
            c.cnt[(bs[best].bits & 1) ? "noise events" : "no noise event"]++;
        }
        if (bs[best].p < 2e-4) {
            s.q = nullptr; // stop quietly: rounding would be amplified
        }
        s.r = bs[best].r;
    };
    for (int i = 0; i < steps && c.violation.empty() && s.q; ++i) {
        std::string what;
        if (g.chance(0.06)) {
            s.lam = lamOf();
            s.q->SetNoiseParameter((real1_f)s.lam);
            if (std::abs((double)s.q->GetNoiseParameter() - s.lam) > 1e-6) {
                c.fail("parameter", "the noise parameter set is not the one returned");
            }
            if (env) {
                s.lam = atof(env);
            }
            c.log.push_back("noise " + f2s(s.lam));
            continue;
        }
        if (g.chance(0.05)) {
            c.log.push_back("clone, go on with the clone");
            s.q = s.q->Clone();
        }
        if (g.chance(0.04)) {
            s.q->ResetUnitaryFidelity();
            s.lf = 0;
            c.log.push_back("reset fidelity");
        }
        if (g.chance(0.06)) {
            const int t = (int)g.below(s.r.n);
            const bool o = s.q->M((bitLenInt)t);
            const double p = o ? s.r.prob(t) : 1 - s.r.prob(t);
            c.log.push_back("M " + std::to_string(t));
            if (!(p > P_IMPOSSIBLE)) {
                c.fail("M", "M gave an outcome of probability " + f2s(p));
                break;
            }
            if (p < P_RARE) {
                break;
            }
            s.r.project((u64)1 << t, (u64)o << t);
            check("M", {}); // measurement is not noisy
            continue;
        }
        if (s.r.n < 5 && g.chance(0.03)) {
            c.log.push_back("Compose");
            Sim o;
            o.q = CreateQuantumInterface(engs[e], (bitLenInt)1, B(1), rg, CMPLX_DEFAULT_ARG, false, true, false, (int64_t)-1, false, false);
            o.r = Ref(1, 1);
            s.q->Compose(o.q);
            s.r.compose(o.r, s.r.n);
            check("Compose", {});
            continue;
        }
        const vi w = gate(g, s, what);
        prog += what;
        c.log.push_back(what);
        check(what, w);
        if (!s.q) {
            break;
        }
        const double f = s.q->GetUnitaryFidelity();
        if (!(std::abs(f - std::exp(s.lf)) < 1e-5 + 1e-4 * std::exp(s.lf)) && c.violation.empty()) {
            c.fail("fidelity", "after " + what + " the reported fidelity is " + f2s(f) + " instead of " + f2s(std::exp(s.lf)));
        }
    }
    c.programs.insert(hashStr(prog));
    if (c.violation.empty() && std::abs(S) > 6.5 * std::sqrt(V) + 6.5) {
        c.fail("rate", "noise events are off their expected number by " + f2s(S) + " (variance " + f2s(V) + ")");
    }
});
// How often each branch is taken: one channel on a fixed state, many trajectories.
static RegCheck rNoiseRate("noise-rate", [](Case& c) {
    Rng& g = c.g;
    auto rg = std::make_shared<qrack_rand_gen>();
    rg->seed((uint32_t)g.next());
    const int n = g.range(1, 2), t = (int)g.below(n);
    const double lam = g.uni(0.02, 1), a = g.uni(0.3, 2.8);
    const bool direct = g.chance(0.3);
    static const std::vector<std::vector<QInterfaceEngine>> engs = { { QINTERFACE_NOISY, QINTERFACE_CPU }, { QINTERFACE_NOISY, QINTERFACE_QUNIT, QINTERFACE_CPU } };
    const size_t e = (size_t)g.below(engs.size());
    QInterfacePtr q = CreateQuantumInterface(engs[e], (bitLenInt)n, B(0), rg, CMPLX_DEFAULT_ARG, false, true, false, (int64_t)-1, false, false);
    q->SetNoiseParameter(0);
    q->RY((real1_f)a, (bitLenInt)t);
    Ref r(n);
    const cd m[4] = { std::cos(a / 2), -std::sin(a / 2), std::sin(a / 2), std::cos(a / 2) };
    r.mtrx(m, t);
    if (n > 1) {
        const cd x[4] = { 0, 1, 1, 0 };
        q->CNOT((bitLenInt)t, (bitLenInt)(1 - t));
        r.cmtrx({ t }, x, 1 - t);
    }
    const cd z[4] = { 1, 0, 0, std::polar(1.0, 0.4) };
    Ref z1 = r;
    if (!direct) {
        z1.mtrx(z, t);
    }
    const auto bs = noise({ { z1, 1, 0 } }, t, lam);
    char b[120];
    snprintf(b, sizeof b, "engine %d, %d qubits, target %d, RY %g, noise %g%s", (int)e, n, t, a, lam, direct ? ", channel alone" : "");
    c.log.push_back(b);
    c.programs.insert(hashStr(b));
    if (bs.size() != 2 || bs[0].r.fidelity(bs[1].r.v) > 0.97 || bs[0].p < 1e-3 || bs[1].p < 1e-3) {
        return;
    }
    const int N = 500;
    int hits = 0;
    for (int i = 0; i < N; ++i) {
        QInterfacePtr k = q->Clone();
        if (direct) {
            k->DepolarizingChannelWeak1Qb((bitLenInt)t, (real1_f)lam);
        } else {
            k->SetNoiseParameter((real1_f)lam);
            k->Phase(C(1), C(z[3]), (bitLenInt)t);
        }
        const std::vector<cd> st = readState(k);
        const double f0 = bs[0].r.fidelity(st), f1 = bs[1].r.fidelity(st);
        if (!(std::max(f0, f1) > 1 - 2e-3)) {
            c.fail("branch", "the state is in no branch of the channel (fidelities " + f2s(f0) + ", " + f2s(f1) + ")");
            return;
        }
        hits += f1 > f0;
        ++c.cnt["trajectories"];
    }
    const double p = bs[1].p, sd = std::sqrt(N * p * (1 - p));
    c.states.insert((u64)hits);
    if (std::abs(hits - N * p) > 6.5 * sd + 3) {
        c.fail("rate", "a noise event of probability " + f2s(p) + " happened " + std::to_string(hits) + " times in " + std::to_string(N));
    }
});

// P29: limits on the number of qubits of a dense simulator (QRACK_MAX_CPU_QB, QRACK_MAX_PAGING_QB).
static int limitOf(const char* v, int d) { return getenv(v) ? atoi(getenv(v)) : d; }
static std::vector<cd> byAmplitude(QInterfacePtr q)
{
    std::vector<cd> o((size_t)1 << q->GetQubitCount());
    for (size_t i = 0; i < o.size(); ++i) {
        const complex a = q->GetAmplitude(B(i));
        o[i] = cd((double)std::real(a), (double)std::imag(a));
    }
    return o;
}
static RegCheck rMem("memlimit", [](Case& c) {
    Rng& g = c.g;
    const int cpuL = limitOf("QRACK_MAX_CPU_QB", 100), pagL = limitOf("QRACK_MAX_PAGING_QB", cpuL);
    static const std::vector<std::string> stacks = { "cpu", "pager", "pager1", "qunit", "qunit", "qunit", "qunit_pager" };
    const std::string stack = stacks[g.below(stacks.size())];
    const bool dense = stack == "cpu" || stack.substr(0, 5) == "pager";
    const int L = stack == "cpu" || stack == "qunit" ? cpuL : pagL;
    auto rg = std::make_shared<qrack_rand_gen>();
    rg->seed((uint32_t)g.next());
    auto mk = [&](int n, u64 perm) { return makeStack(stack, n, perm, rg, true); };
    const int n = g.range(1, std::min(9, L + 4));
    Sim s;
    char b[100];
    snprintf(b, sizeof b, "stack %s, %d qubits, limits %d and %d", stack.c_str(), n, cpuL, pagL);
    c.log.push_back(b);
    std::string prog = b;
    const u64 perm = g.below((u64)1 << n);
    bool threw = false;
    try {
        s.q = mk(n, perm);
    } catch (const std::exception& e) {
        threw = true;
    }
    if (threw != (dense && n > L)) {
        c.fail("construct", std::string("construction ") + (threw ? "was refused" : "was not refused"));
        return;
    }
    c.programs.insert(hashStr(prog));
    if (threw) {
        ++c.cnt["refused constructions"];
        return;
    }
    s.r = Ref(n, perm);
    std::vector<int> comp(n); // over-approximation of the entangled groups
    for (int i = 0; i < n; ++i) {
        comp[i] = i;
    }
    bool over = false, exact = true;
    double lastF = 1;
    const int steps = g.range(4, 40);
    for (int i = 0; i < steps && c.violation.empty(); ++i) {
        std::string what;
        try {
            const double pick = g.unit();
            if (pick < 0.12 && s.r.n < 9) {
                // growing: refused beyond the limit, and then nothing changes
                const int k = g.range(1, 3);
                const u64 p = g.below((u64)1 << k);
                if (dense && k > L) {
                    continue;
                }
                const int at = g.range(0, s.r.n);
                const int kind = (int)g.below(3);
                what = (kind == 0 ? "Allocate " : (kind == 1 ? "Compose " : "Compose at ")) + std::to_string(k) + "@" + std::to_string(at);
                c.log.push_back(what);
                QInterfacePtr o = mk(k, p);
                bool t = false;
                try {
                    if (kind == 0) {
                        s.q->Allocate((bitLenInt)at, (bitLenInt)k);
                    } else if (kind == 1) {
                        s.q->Compose(o);
                    } else {
                        s.q->Compose(o, (bitLenInt)at);
                    }
                } catch (const std::exception& e) {
                    t = true;
                }
                if (t != (dense && s.r.n + k > L)) {
                    c.fail(what.substr(0, 8), what + (t ? " was refused" : " was not refused") + " at " + std::to_string(s.r.n) + " qubits");
                    break;
                }
                if (t) {
                    ++c.cnt["refused growth"];
                    if (o->GetQubitCount() != k || Ref(k, p).fidelity(byAmplitude(o)) < 0.999) {
                        c.fail("argument", "the simulator that could not be composed has changed");
                    }
                    if (s.q->GetQubitCount() != s.r.n) {
                        c.fail("size", "the refused simulator reports " + std::to_string((int)s.q->GetQubitCount()) + " qubits instead of " + std::to_string(s.r.n));
                        break;
                    }
                } else {
                    const int a = kind == 1 ? s.r.n : at;
                    s.r.compose(Ref(k, kind == 0 ? 0 : p), a);
                    std::vector<int> m;
                    for (int j = 0; j < k; ++j) {
                        m.push_back(1000 * (i + 1) + j);
                    }
                    comp.insert(comp.begin() + a, m.begin(), m.end());
                }
            } else if (pick < 0.2) {
                const int t = (int)g.below(s.r.n);
                what = "M " + std::to_string(t);
                c.log.push_back(what);
                const bool o = s.q->M((bitLenInt)t);
                if (exact) {
                    const double p = o ? s.r.prob(t) : 1 - s.r.prob(t);
                    if (!(p > P_IMPOSSIBLE)) {
                        c.fail("M", "M gave an outcome of probability " + f2s(p));
                        break;
                    }
                    if (p < P_RARE) {
                        break;
                    }
                    s.r.project((u64)1 << t, (u64)o << t);
                }
            } else {
                const Ref old = s.r;
                bool refused = false;
                vi w;
                try {
                    w = gate(g, s, what);
                } catch (const std::exception& e) {
                    what += " (refused)";
                    c.log.push_back(what);
                    refused = true;
                    ++c.cnt["refused gates"];
                    if (dense || !strstr(e.what(), "limits exceeded")) {
                        throw;
                    }
                }
                c.log.push_back(what);
                // every qubit named by the gate joins one group (the order list begins with the qubits used; masks name theirs)
                int used = (int)w.size();
                if (what[0] == 'M' || what[0] == 'C' || what.compare(0, 6, "AntiCS") == 0 || what.compare(0, 7, "AntiCIS") == 0) {
                    used = s.r.n; // controls are not in w
                }
                std::vector<int> names;
                if (used == s.r.n && what.compare(0, 4, "Mtrx") != 0) {
                    for (int j = 0; j < s.r.n; ++j) {
                        names.push_back(j);
                    }
                    if (what.compare(0, 4, "CNOT") == 0 || what.compare(0, 2, "CZ") == 0) {
                        const char* z = strchr(what.c_str(), '[') + 1;
                        int a = 0, d = 0;
                        sscanf(z, "%d %d", &a, &d);
                        names = { a, d };
                    }
                } else {
                    names = w;
                }
                for (int x : names) {
                    const int from = comp[x], to = comp[names[0]];
                    for (int& y : comp) {
                        y = y == from ? to : y;
                    }
                }
                if (refused) { // the gate may have been applied in part
                    for (int j = 0; j < s.r.n; ++j) {
                        over |= s.r.n > L;
                    }
                    if (!over) {
                        c.fail(what.substr(0, what.find(' ')), what + " although the register is within the limit");
                    }
                    exact = false;
                    continue;
                }
                for (int x : names) {
                    over |= std::count(comp.begin(), comp.end(), comp[x]) > L;
                }
            }
        } catch (const std::exception& e) {
            c.fail(what.substr(0, what.find(' ')), what + " threw " + e.what());
            break;
        }
        prog += what;
        // what is still promised
        const double f = s.q->GetUnitaryFidelity();
        if (!(f >= 0 && f <= lastF + 1e-6)) {
            c.fail("fidelity", "after " + what + " the fidelity estimate goes from " + f2s(lastF) + " to " + f2s(f));
            break;
        }
        lastF = f;
        if (!over && f < 1 - 1e-4) {
            c.fail("fidelity", "after " + what + ", with no more than " + std::to_string(L) + " qubits entangled, the fidelity estimate is " + f2s(f));
            break;
        }
        QInterfacePtr k = s.q->Clone();
        std::vector<cd> st;
        try {
            st = byAmplitude(k);
        } catch (const std::exception& e) {
            c.fail("read", "after " + what + " the state cannot be read: " + e.what());
            break;
        }
        c.states.insert(stateHash(st));
        double nrm = 0;
        for (auto& x : st) {
            nrm += std::norm(x);
        }
        if (!(std::abs(nrm - 1) < 1e-2)) {
            c.fail("norm", "after " + what + " the state's norm is " + f2s(nrm));
            break;
        }
        if (exact) {
            const double fd = s.r.fidelity(st);
            if (fd < 1 - 2e-3) {
                if (!over) {
                    c.fail(what.substr(0, what.find(' ')), "after " + what + " the state has fidelity " + f2s(fd) + " with the ideal state, but the estimate is " + f2s(f));
                    break;
                }
                exact = false;
                ++c.cnt["approximated beyond the limit"];
            } else {
                ++c.cnt[over ? "exact states above the limit" : "exact states below the limit"];
            }
        } else {
            ++c.cnt["states after approximation"];
        }
    }
    c.programs.insert(hashStr(prog));
});
} // namespace vf
