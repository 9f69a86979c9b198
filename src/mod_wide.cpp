// P03 / P13: registers far wider than a dense vector: stabilizer programs against the generator model, reversible
// classical programs against bit arithmetic, and programs of disjoint groups of qubits against one small model per group.
#include "harness.hpp"
#include "tableau.hpp"
#include "qunitclifford.hpp"
namespace vf {
namespace {
struct WG {
    std::string n;
    vi q; // controls first, target(s) last
    u64 perm = 0;
    std::vector<double> p;
    std::string str() const
    {
        std::ostringstream o;
        o << n;
        for (int x : q) {
            o << " " << x;
        }
        if (perm) {
            o << " perm=" << perm;
        }
        for (double d : n[0] == 'R' || n.back() == 'U' ? p : std::vector<double>()) {
            o << " " << d;
        }
        return o.str();
    }
};
const char* CL1[] = { "X", "Y", "Z", "H", "S", "IS", "SqrtX", "ISqrtX", "SqrtY", "ISqrtY" };
const char* CL2[] = { "CNOT", "CY", "CZ", "AntiCNOT", "AntiCY", "AntiCZ", "Swap", "ISwap", "IISwap" };
const char* NC1[] = { "T", "IT", "RX", "RY", "RZ", "U" };
const char* NC3[] = { "CCNOT", "CSwap", "MCU", "UCU" };
double ang(Rng& g) { return g.chance(0.5) ? (M_PI / 8) * g.range(-16, 16) : g.uni(-7, 7); }

// ---- on the real simulator
void real(QInterfacePtr s, const WG& g)
{
    const vi& q = g.q;
    const bitLenInt a = (bitLenInt)q[0], b = (bitLenInt)(q.size() > 1 ? q[1] : 0), c = (bitLenInt)(q.size() > 2 ? q[2] : 0);
    const std::string& n = g.n;
#define ONE(m)                                                                                                         \
    if (n == #m) {                                                                                                     \
        s->m(a);                                                                                                       \
        return;                                                                                                        \
    }
#define TWO(m)                                                                                                         \
    if (n == #m) {                                                                                                     \
        s->m(a, b);                                                                                                    \
        return;                                                                                                        \
    }
    ONE(X) ONE(Y) ONE(Z) ONE(H) ONE(S) ONE(IS) ONE(SqrtX) ONE(ISqrtX) ONE(SqrtY) ONE(ISqrtY) ONE(T) ONE(IT)
    TWO(CNOT) TWO(CY) TWO(CZ) TWO(AntiCNOT) TWO(AntiCY) TWO(AntiCZ) TWO(Swap) TWO(ISwap) TWO(IISwap)
#undef ONE
#undef TWO
    if (n == "RX") {
        s->RX((real1_f)g.p[0], a);
    } else if (n == "RY") {
        s->RY((real1_f)g.p[0], a);
    } else if (n == "RZ") {
        s->RZ((real1_f)g.p[0], a);
    } else if (n == "U") {
        s->U(a, (real1_f)g.p[0], (real1_f)g.p[1], (real1_f)g.p[2]);
    } else if (n == "CCNOT") {
        s->CCNOT(a, b, c);
    } else if (n == "CSwap") {
        s->CSwap({ a }, b, c);
    } else if (n == "MCU" || n == "UCU") {
        const double t = g.p[0], ph = g.p[1], l = g.p[2];
        const complex m[4] = { C(cos(t / 2)), C(-std::polar(1.0, l) * sin(t / 2)), C(std::polar(1.0, ph) * sin(t / 2)),
            C(std::polar(1.0, ph + l) * cos(t / 2)) };
        if (n == "MCU") {
            s->MCMtrx({ a, b }, m, c);
        } else {
            s->UCMtrx({ a, b }, m, c, B(g.perm));
        }
    } else if (n == "MCX") {
        s->UCInvert(std::vector<bitLenInt>(q.begin(), q.end() - 1), ONE_CMPLX, ONE_CMPLX, (bitLenInt)q.back(), B(g.perm));
    }
}
// ---- on a dense model; f maps qubits to the model's
void dense(Ref& r, const WG& g, const std::function<int(int)>& f)
{
    const cd I(0, 1);
    const double h = M_SQRT1_2;
    static const std::map<std::string, std::vector<cd>> M = {
        { "X", { 0, 1, 1, 0 } },
        { "Y", { 0, cd(0, -1), cd(0, 1), 0 } },
        { "Z", { 1, 0, 0, -1 } },
        { "H", { h, h, h, -h } },
        { "S", { 1, 0, 0, cd(0, 1) } },
        { "IS", { 1, 0, 0, cd(0, -1) } },
        { "SqrtX", { cd(.5, .5), cd(.5, -.5), cd(.5, -.5), cd(.5, .5) } },
        { "ISqrtX", { cd(.5, -.5), cd(.5, .5), cd(.5, .5), cd(.5, -.5) } },
        { "SqrtY", { cd(.5, .5), cd(-.5, -.5), cd(.5, .5), cd(.5, .5) } },
        { "ISqrtY", { cd(.5, -.5), cd(.5, -.5), cd(-.5, .5), cd(.5, -.5) } },
        { "T", { 1, 0, 0, cd(h, h) } },
        { "IT", { 1, 0, 0, cd(h, -h) } },
    };
    auto it = M.find(g.n);
    const std::string& n = g.n;
    vi q;
    for (int x : g.q) {
        q.push_back(f(x));
    }
    if (it != M.end()) {
        r.mtrx(it->second.data(), q[0]);
        return;
    }
    auto base = [&](const char* k) { return M.at(k).data(); };
    if (n == "CNOT") {
        r.mtrx({ q[0] }, 1, base("X"), q[1]);
    } else if (n == "CY") {
        r.mtrx({ q[0] }, 1, base("Y"), q[1]);
    } else if (n == "CZ") {
        r.mtrx({ q[0] }, 1, base("Z"), q[1]);
    } else if (n == "AntiCNOT") {
        r.mtrx({ q[0] }, 0, base("X"), q[1]);
    } else if (n == "AntiCY") {
        r.mtrx({ q[0] }, 0, base("Y"), q[1]);
    } else if (n == "AntiCZ") {
        r.mtrx({ q[0] }, 0, base("Z"), q[1]);
    } else if (n == "Swap" || n == "ISwap" || n == "IISwap") {
        const cd k = n == "Swap" ? cd(1) : (n == "ISwap" ? I : -I);
        const cd m[16] = { 1, 0, 0, 0, 0, 0, k, 0, 0, k, 0, 0, 0, 0, 0, 1 };
        r.mtrx4({}, 0, m, q[0], q[1]);
    } else if (n == "CSwap") {
        const cd m[16] = { 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1 };
        r.mtrx4({ q[0] }, 1, m, q[1], q[2]);
    } else if (n == "RX" || n == "RY" || n == "RZ") {
        const double t = g.p[0] / 2;
        const cd x[4] = { cos(t), -I * sin(t), -I * sin(t), cos(t) }, y[4] = { cos(t), -sin(t), sin(t), cos(t) },
                 z[4] = { std::polar(1.0, -t), 0, 0, std::polar(1.0, t) };
        r.mtrx(n == "RX" ? x : (n == "RY" ? y : z), q[0]);
    } else if (n == "CCNOT") {
        r.mtrx({ q[0], q[1] }, 3, base("X"), q[2]);
    } else if (n == "MCX") {
        r.mtrx(vi(q.begin(), q.end() - 1), g.perm, base("X"), q.back());
    } else {
        const double t = g.p[0], ph = g.p[1], l = g.p[2];
        const cd m[4] = { cos(t / 2), -std::polar(1.0, l) * sin(t / 2), std::polar(1.0, ph) * sin(t / 2),
            std::polar(1.0, ph + l) * cos(t / 2) };
        if (n == "U") {
            r.mtrx(m, q[0]);
        } else {
            r.mtrx({ q[0], q[1] }, n == "MCU" ? 3 : g.perm, m, q[2]);
        }
    }
}
// ---- on the stabilizer model
void stab(Tab& t, const WG& g)
{
    const std::string& n = g.n;
    const int a = g.q[0], b = g.q.size() > 1 ? g.q[1] : 0;
    auto sdg = [&](int q) {
        t.Z(q);
        t.S(q);
    };
    if (n == "X") {
        t.X(a);
    } else if (n == "Y") {
        t.Z(a);
        t.X(a);
    } else if (n == "Z") {
        t.Z(a);
    } else if (n == "H") {
        t.H(a);
    } else if (n == "S") {
        t.S(a);
    } else if (n == "IS") {
        sdg(a);
    } else if (n == "SqrtX") {
        t.H(a);
        t.S(a);
        t.H(a);
    } else if (n == "ISqrtX") {
        t.H(a);
        sdg(a);
        t.H(a);
    } else if (n == "SqrtY") { // X -> -Z, Z -> X: first Z, then H
        t.Z(a);
        t.H(a);
    } else if (n == "ISqrtY") {
        t.H(a);
        t.Z(a);
    } else if (n == "Swap") {
        t.Swap(a, b);
    } else if (n == "ISwap" || n == "IISwap") {
        t.CZ(a, b);
        if (n == "ISwap") {
            t.S(a);
            t.S(b);
        } else {
            sdg(a);
            sdg(b);
        }
        t.Swap(a, b);
    } else {
        const bool anti = n[0] == 'A';
        const char k = n[n.size() - 1];
        if (anti) {
            t.X(a);
        }
        if (k == 'T') {
            t.CNOT(a, b);
        } else if (k == 'Z') {
            t.CZ(a, b);
        } else {
            sdg(b);
            t.CNOT(a, b);
            t.S(b);
        }
        if (anti) {
            t.X(a);
        }
    }
}
WG clifford(Rng& g, int n)
{
    WG w;
    if (n < 2 || g.chance(0.4)) {
        w.n = CL1[g.below(10)];
        w.q = g.pick(n, 1);
    } else {
        w.n = CL2[g.below(9)];
        w.q = g.pick(n, 2);
        if (g.chance(0.3)) { // near each other, or at word borders
            const int a = (int)g.below(n), d = g.chance(0.5) ? 1 : 64;
            if (a + d < n) {
                w.q = { a, a + d };
                if (g.chance(0.5)) {
                    std::swap(w.q[0], w.q[1]);
                }
            }
        }
    }
    return w;
}
WG anyGate(Rng& g, const vi& qs)
{
    WG w;
    const int k = (int)qs.size();
    auto map = [&](const vi& v) {
        vi o;
        for (int x : v) {
            o.push_back(qs[x]);
        }
        return o;
    };
    const double d = g.unit();
    if (k < 2 || d < 0.25) {
        w.n = CL1[g.below(10)];
        w.q = map(g.pick(k, 1));
    } else if (d < 0.45) {
        w.n = NC1[g.below(6)];
        w.q = map(g.pick(k, 1));
    } else if (d < 0.85 || k < 3) {
        w.n = CL2[g.below(9)];
        w.q = map(g.pick(k, 2));
    } else {
        w.n = NC3[g.below(4)];
        w.q = map(g.pick(k, 3));
        w.perm = w.n == "UCU" ? g.below(4) : 0;
    }
    for (int i = 0; i < 3; ++i) {
        w.p.push_back(ang(g));
    }
    return w;
}
WG inverse(const WG& w)
{
    WG r = w;
    static const std::map<std::string, std::string> I = { { "S", "IS" }, { "IS", "S" }, { "SqrtX", "ISqrtX" }, { "ISqrtX", "SqrtX" },
        { "SqrtY", "ISqrtY" }, { "ISqrtY", "SqrtY" }, { "T", "IT" }, { "IT", "T" }, { "ISwap", "IISwap" }, { "IISwap", "ISwap" } };
    auto it = I.find(w.n);
    if (it != I.end()) {
        r.n = it->second;
    } else if (w.n[0] == 'R') {
        r.p[0] = -w.p[0];
    } else if (w.n == "U" || w.n == "MCU" || w.n == "UCU") {
        r.p = { -w.p[0], -w.p[2], -w.p[1] };
    }
    return r;
}
bitCapInt pw(int k) { return pow2((bitLenInt)k); }
bitCapInt capOf(const std::vector<bool>& b)
{
    bitCapInt r = ZERO_BCI;
    for (size_t i = 0; i < b.size(); ++i) {
        if (b[i]) {
            bi_or_ip(&r, pw((int)i));
        }
    }
    return r;
}
bool bitOf(const bitCapInt& v, int k) { return bi_compare_0(v & pw(k)) != 0; }
int maxWidth() { return (int)bitsInCap - 3; }
const double TOL = 2e-3;

// ------------------------------------------------------------------------------- stabilizer simulators, any width
struct SW {
    Case& c;
    QInterfacePtr q;
    Tab t;
    std::string stack;
    SW(Case& cc)
        : c(cc)
    {
    }
    bool ok() const { return c.violation.empty(); }
    void log(const std::string& s)
    {
        c.log.push_back(s);
        if (c.verbose) {
            fprintf(stderr, "  %s\n", s.c_str());
        }
    }
    void bad(const std::string& op, const std::string& s) { c.fail(stack + ":" + op, stack + " n=" + std::to_string(t.n) + ": " + op + ": " + s); }
    void gate(const WG& w)
    {
        log(w.str());
        real(q, w);
        stab(t, w);
        ++c.cnt["gates"];
    }
    // probability of a subset's values, by the model, as a number
    static double p2(int lg) { return lg < 0 ? 0.0 : std::pow(0.5, lg); }
    void probs(int k)
    {
        for (int i = 0; i < k && ok(); ++i) {
            const int b = (int)c.g.below(t.n);
            const double p = q->Prob((bitLenInt)b), w = t.prob2(b) / 2.0;
            ++c.cnt["probabilities compared"];
            if (!(std::abs(p - w) < TOL)) {
                bad("Prob", "qubit " + std::to_string(b) + " has probability " + f2s(p) + ", should be " + f2s(w));
            }
        }
    }
    void mask()
    {
        const vi qs = c.g.pick(t.n, c.g.range(1, std::min(t.n, 6)));
        std::vector<bool> v, full(t.n, false);
        Tab m = t;
        for (int b : qs) { // mostly values that are possible
            const int p = m.prob2(b);
            const bool x = p == 1 ? c.g.chance(0.5) : (c.g.chance(0.9) == (p == 2));
            v.push_back(x);
            if (p == 1) {
                m.project(b, x);
            }
        }
        bitCapInt mk = ZERO_BCI, pv = ZERO_BCI;
        for (size_t i = 0; i < qs.size(); ++i) {
            bi_or_ip(&mk, pw(qs[i]));
            if (v[i]) {
                bi_or_ip(&pv, pw(qs[i]));
            }
        }
        const double w = p2(t.logProb(qs, v));
        double p = 1;
        if (t.xrank() <= 8) {
            p = q->ProbMask(mk, pv);
            ++c.cnt["ProbMask"];
        } else {
            // (ProbMask takes time exponential in the number of superposed dimensions)
            QInterfacePtr k = q->Clone();
            for (size_t i = 0; i < qs.size() && p > 0.01; ++i) {
                const double p1 = k->Prob((bitLenInt)qs[i]);
                p *= v[i] ? p1 : 1 - p1;
                if (p > 0.01) {
                    k->ForceM((bitLenInt)qs[i], v[i]);
                }
            }
        }
        ++c.cnt["joint probabilities compared"];
        if (!(std::abs(p - w) < TOL)) {
            bad("ProbMask", "joint probability of " + std::to_string(qs.size()) + " qubits is " + f2s(p) + ", should be " + f2s(w));
        }
    }
    void measure(int b, int how)
    {
        const int p = t.prob2(b);
        bool r;
        log((how ? "ForceM " : "M ") + std::to_string(b));
        if (how) {
            const bool f = p == 1 ? c.g.chance(0.5) : (p == 2);
            r = q->ForceM((bitLenInt)b, f, true, true);
            if (r != f) {
                bad("ForceM", "did not give the forced result");
            }
        } else {
            r = q->M((bitLenInt)b);
        }
        ++c.cnt[p == 1 ? "random measurements" : "determined measurements"];
        if (p != 1 && r != (p == 2)) {
            bad(how ? "ForceM" : "M", "qubit " + std::to_string(b) + " gave " + std::to_string(r) + ", which is impossible");
        }
        t.project(b, r);
        c.states.insert(t.hash());
    }
    void finish()
    {
        // rotate into another basis, then read every qubit
        for (int i = 0; i < t.n; ++i) {
            if (c.g.chance(0.4)) {
                gate({ CL1[c.g.below(10)], { i }, 0, {} });
            }
        }
        if (c.g.chance(0.3)) {
            // shots: all must be possible
            std::vector<bitCapInt> pws;
            const vi qs = c.g.pick(t.n, c.g.range(1, t.n));
            for (int b : qs) {
                pws.push_back(pw(b));
            }
            log("MultiShotMeasureMask");
            for (auto& e : q->MultiShotMeasureMask(pws, 3)) {
                std::vector<bool> v;
                for (size_t i = 0; i < qs.size(); ++i) {
                    v.push_back(bitOf(e.first, (int)i));
                }
                ++c.cnt["shots checked"];
                if (t.logProb(qs, v) < 0) {
                    bad("MultiShotMeasureMask", "an outcome of " + std::to_string(qs.size()) + " qubits is impossible");
                    return;
                }
            }
        }
        if (c.g.chance(0.3)) {
            log("MAll");
            const bitCapInt r = q->MAll();
            vi qs;
            std::vector<bool> v;
            for (int i = 0; i < t.n; ++i) {
                qs.push_back(i);
                v.push_back(bitOf(r, i));
            }
            ++c.cnt["full measurements"];
            if (t.logProb(qs, v) < 0) {
                bad("MAll", "the outcome is impossible");
                return;
            }
            for (int i = 0; i < t.n; ++i) {
                t.project(i, v[i]);
            }
            probs(5);
            return;
        }
        vi o = c.g.pick(t.n, t.n);
        for (int b : o) {
            if (!ok()) {
                return;
            }
            measure(b, c.g.chance(0.3));
        }
        probs(5);
    }
};
int pickWidth(Rng& g, int cap)
{
    const int m = std::min(cap, maxWidth());
    const int k = (int)g.below(10);
    if (k < 3) {
        return g.range(2, std::min(m, 12));
    }
    if (k < 5) {
        return std::min(m, 62 + g.range(0, 6)); // around a machine word
    }
    if (k < 6) {
        return m - g.range(0, 3);
    }
    return g.range(12, m);
}
void stabWide(Case& c, const std::vector<std::string>& stacks)
{
    SW w(c);
    w.stack = stacks[c.g.below(stacks.size())];
    int n = pickWidth(c.g, 240);
    const bool big = n > 90;
    auto rg = std::make_shared<qrack_rand_gen>((unsigned)c.g.next());
    std::vector<bool> init(n);
    for (int i = 0; i < n; ++i) {
        init[i] = c.g.chance(0.3);
    }
    auto make = [&](int k) { return makeStack(w.stack, k, 0, rg, true); };
    w.q = make(n);
    w.q->SetPermutation(capOf(init));
    w.t = Tab(n);
    for (int i = 0; i < n; ++i) {
        if (init[i]) {
            w.t.X(i);
        }
    }
    w.log(w.stack + " n=" + std::to_string(n));
    const bool dense = c.g.chance(0.5);
    const int rounds = big ? 2 : c.g.range(2, 6);
    for (int r = 0; r < rounds && w.ok(); ++r) {
        if (dense) {
            for (int i = 0; i < w.t.n; ++i) {
                if (c.g.chance(0.5)) {
                    w.gate({ "H", { i }, 0, {} });
                }
            }
        }
        const int k = c.g.range(5, 5 + 3 * w.t.n);
        for (int i = 0; i < k; ++i) {
            w.gate(clifford(c.g, w.t.n));
        }
        w.probs(4);
        if (!w.ok()) {
            break;
        }
        switch (c.g.below(8)) {
        case 0:
        case 1: {
            const int m = c.g.range(1, 6);
            for (int i = 0; i < m && w.ok(); ++i) {
                w.measure((int)c.g.below(w.t.n), c.g.chance(0.5));
            }
            break;
        }
        case 2: { // compose, sometimes take it out again
            const int lim = std::min(maxWidth(), 240) - w.t.n;
            if (lim < 1) {
                break;
            }
            const int k2 = c.g.range(1, std::min(lim, 12));
            SW o(c);
            o.stack = w.stack;
            o.q = make(k2);
            o.t = Tab(k2);
            for (int i = 0; i < 4 * k2; ++i) {
                o.gate(clifford(c.g, k2));
            }
            const int at = c.g.chance(0.5) ? w.t.n : (int)c.g.below(w.t.n + 1);
            w.log("Compose of these " + std::to_string(k2) + " at " + std::to_string(at));
            const bitLenInt ret = at == w.t.n && c.g.chance(0.5) ? w.q->Compose(o.q) : w.q->Compose(o.q, (bitLenInt)at);
            if ((int)ret != at) {
                w.bad("Compose", "returned start " + std::to_string(ret) + " instead of " + std::to_string(at));
            }
            w.t.compose(o.t, at);
            if (w.q->GetQubitCount() != (bitLenInt)w.t.n) {
                w.bad("Compose", "wrong qubit count");
            }
            ++c.cnt["compose"];
            if (w.ok() && c.g.chance(0.6)) {
                for (int i = 0; i < 6; ++i) { // inside the part
                    WG x = clifford(c.g, k2);
                    for (int& b : x.q) {
                        b += at;
                    }
                    w.gate(x);
                }
                w.log("Decompose");
                SW d(c);
                d.stack = w.stack;
                if (c.g.chance(0.5)) {
                    d.q = make(k2);
                    w.q->Decompose((bitLenInt)at, d.q);
                } else {
                    d.q = w.q->Decompose((bitLenInt)at, (bitLenInt)k2);
                }
                d.t = w.t.split(at, k2);
                ++c.cnt["decompose"];
                d.finish();
            }
            break;
        }
        case 3: { // measure a range and drop it
            const int len = c.g.range(1, std::min(5, w.t.n - 1)), at = (int)c.g.below(w.t.n - len + 1);
            if (w.t.n - len < 1) {
                break;
            }
            for (int i = 0; i < len && w.ok(); ++i) {
                w.measure(at + i, 0);
            }
            if (!w.ok()) {
                break;
            }
            w.log("Dispose " + std::to_string(at) + " " + std::to_string(len));
            std::vector<bool> v;
            for (int i = 0; i < len; ++i) {
                v.push_back(w.t.prob2(at + i) == 2);
            }
            if (c.g.chance(0.5)) {
                w.q->Dispose((bitLenInt)at, (bitLenInt)len);
            } else {
                w.q->Dispose((bitLenInt)at, (bitLenInt)len, capOf(v));
            }
            w.t.split(at, len);
            ++c.cnt["dispose"];
            break;
        }
        case 4: {
            w.log("Clone");
            QInterfacePtr old = w.q;
            w.q = w.q->Clone();
            old->SetPermutation(ZERO_BCI);
            ++c.cnt["clone"];
            break;
        }
        case 5: {
            if (w.t.n + 3 > std::min(maxWidth(), 240)) {
                break;
            }
            const int at = (int)c.g.below(w.t.n + 1), len = c.g.range(1, 3);
            w.log("Allocate " + std::to_string(at) + " " + std::to_string(len));
            w.q->Allocate((bitLenInt)at, (bitLenInt)len);
            w.t.compose(Tab(len), at);
            ++c.cnt["allocate"];
            break;
        }
        case 6: {
            const int len = c.g.range(1, std::min(4, w.t.n)), at = (int)c.g.below(w.t.n - len + 1);
            if (w.stack == "stab" || w.stack == "uclif") {
                auto s = std::dynamic_pointer_cast<QStabilizer>(w.q);
                auto u = std::dynamic_pointer_cast<QUnitClifford>(w.q);
                const bool got = s ? s->CanDecomposeDispose((bitLenInt)at, (bitLenInt)len) : u->CanDecomposeDispose((bitLenInt)at, (bitLenInt)len);
                const bool want = w.t.separable(at, len);
                w.log("CanDecomposeDispose " + std::to_string(at) + " " + std::to_string(len));
                ++c.cnt[want ? "separable ranges" : "entangled ranges"];
                if (got != want) {
                    w.bad("CanDecomposeDispose", std::string("says ") + (got ? "separable" : "entangled"));
                }
            }
            break;
        }
        default:
            w.mask();
        }
        if (w.ok() && c.g.chance(0.5)) {
            w.mask();
        }
        if (w.ok() && c.g.chance(0.15) && (w.stack == "stab" || w.stack == "uclif")) {
            // a gate it cannot do must be refused without any effect
            int b = -1;
            for (int i = 0; i < w.t.n; ++i) {
                if (w.t.prob2(i) == 1) {
                    b = i;
                }
            }
            if (b >= 0) {
                w.log("T " + std::to_string(b) + " (must be refused)");
                bool thrown = false;
                try {
                    w.q->T((bitLenInt)b);
                } catch (const std::exception&) {
                    thrown = true;
                }
                ++c.cnt["refusals"];
                if (!thrown) {
                    w.bad("T", "accepted a non-Clifford gate on a superposed qubit");
                }
            }
        }
    }
    if (w.ok()) {
        w.finish();
    }
    ++c.cnt["max:width " + std::to_string(0)];
    long& mw = c.cnt["max:width"];
    mw = std::max(mw, (long)w.t.n);
    c.cnt.erase("max:width 0");
    ++c.cnt["comparisons"];
    u64 h = 0;
    for (auto& l : c.log) {
        h = mix(h, hashStr(l));
    }
    c.programs.insert(h);
}

// ------------------------------------------------------------------------------- reversible classical programs
void classicalWide(Case& c, const std::vector<std::string>& stacks)
{
    Rng& g = c.g;
    const std::string stack = stacks[g.below(stacks.size())];
    const int n = std::min(maxWidth(), g.chance(0.3) ? 62 + g.range(0, 6) : g.range(20, std::min(110, maxWidth())));
    auto rg = std::make_shared<qrack_rand_gen>((unsigned)g.next());
    QInterfacePtr q = makeStack(stack, n, 0, rg, true);
    std::vector<bool> v(n);
    for (int i = 0; i < n; ++i) {
        v[i] = g.chance(0.5);
    }
    q->SetPermutation(capOf(v));
    const bool clif = stack == "stab" || stack == "uclif";
    auto log = [&](const std::string& s) {
        c.log.push_back(s);
        if (c.verbose) {
            fprintf(stderr, "  %s\n", s.c_str());
        }
    };
    log(stack + " n=" + std::to_string(n));
    QAluPtr alu = std::dynamic_pointer_cast<QAlu>(q);
    auto get = [&](int at, int len) {
        u64 r = 0;
        for (int i = 0; i < len; ++i) {
            r |= (u64)v[at + i] << i;
        }
        return r;
    };
    auto put = [&](int at, int len, u64 x) {
        for (int i = 0; i < len; ++i) {
            v[at + i] = (x >> i) & 1;
        }
    };
    const int ops = g.range(20, 120);
    for (int k = 0; k < ops; ++k) {
        const int kind = (int)g.below(clif ? 6 : 14);
        const vi p = g.pick(n, 4);
        const int len = g.range(1, 10), at = (int)g.below(n - len + 1);
        std::ostringstream o;
        switch (kind) {
        case 0:
            o << "X " << p[0];
            q->X((bitLenInt)p[0]);
            v[p[0]] = !v[p[0]];
            break;
        case 1:
        case 2:
            o << "CNOT " << p[0] << " " << p[1];
            q->CNOT((bitLenInt)p[0], (bitLenInt)p[1]);
            v[p[1]] = v[p[1]] != v[p[0]];
            break;
        case 3:
            o << "AntiCNOT " << p[0] << " " << p[1];
            q->AntiCNOT((bitLenInt)p[0], (bitLenInt)p[1]);
            v[p[1]] = v[p[1]] == v[p[0]];
            break;
        case 4:
            o << "Swap " << p[0] << " " << p[1];
            q->Swap((bitLenInt)p[0], (bitLenInt)p[1]);
            std::vector<bool>::swap(v[p[0]], v[p[1]]);
            break;
        case 5: {
            const int ln = g.range(1, n), st = (int)g.below(n - ln + 1), sh = (int)g.below(ln + 1);
            const bool left = g.chance(0.5);
            o << (left ? "ROL " : "ROR ") << sh << " " << st << " " << ln;
            if (left) {
                q->ROL((bitLenInt)sh, (bitLenInt)st, (bitLenInt)ln);
            } else {
                q->ROR((bitLenInt)sh, (bitLenInt)st, (bitLenInt)ln);
            }
            std::vector<bool> w = v;
            for (int i = 0; i < ln; ++i) {
                const int j = left ? (i + sh) % ln : (i + ln - sh % ln) % ln;
                w[st + j] = v[st + i];
            }
            v = w;
            break;
        }
        case 6:
        case 7:
            o << "CCNOT " << p[0] << " " << p[1] << " " << p[2];
            q->CCNOT((bitLenInt)p[0], (bitLenInt)p[1], (bitLenInt)p[2]);
            if (v[p[0]] && v[p[1]]) {
                v[p[2]] = !v[p[2]];
            }
            break;
        case 8: {
            const int nc = g.range(1, 3);
            const u64 perm = g.chance(0.6) ? (u64)(v[p[0]] | (v[p[1]] << 1) | (v[p[2]] << 2)) & ((1 << nc) - 1) : g.below(1 << nc);
            o << "UCInvert perm=" << perm << " controls " << nc << ": " << p[0] << " " << p[1] << " " << p[2] << " target " << p[3];
            q->UCInvert(Q(vi(p.begin(), p.begin() + nc)), ONE_CMPLX, ONE_CMPLX, (bitLenInt)p[3], B(perm));
            bool hit = true;
            for (int i = 0; i < nc; ++i) {
                hit = hit && v[p[i]] == (bool)((perm >> i) & 1);
            }
            if (hit) {
                v[p[3]] = !v[p[3]];
            }
            break;
        }
        case 9:
            o << "CSwap " << p[0] << " " << p[1] << " " << p[2];
            q->CSwap({ (bitLenInt)p[0] }, (bitLenInt)p[1], (bitLenInt)p[2]);
            if (v[p[0]]) {
                std::vector<bool>::swap(v[p[1]], v[p[2]]);
            }
            break;
        case 10:
        case 11: {
            const u64 a = g.below((u64)1 << len);
            const bool inc = g.chance(0.5);
            o << (inc ? "INC " : "DEC ") << a << " " << at << " " << len;
            if (inc) {
                q->INC(B(a), (bitLenInt)at, (bitLenInt)len);
            } else {
                q->DEC(B(a), (bitLenInt)at, (bitLenInt)len);
            }
            const u64 m = ((u64)1 << len) - 1;
            put(at, len, (get(at, len) + (inc ? a : (m + 1 - a))) & m);
            break;
        }
        case 12: {
            const vi pp = g.pick(n, 1);
            if (pp[0] >= at && pp[0] < at + len) {
                continue;
            }
            const u64 a = g.below((u64)1 << len);
            o << "CINC " << a << " " << at << " " << len << " control " << pp[0];
            q->CINC(B(a), (bitLenInt)at, (bitLenInt)len, { (bitLenInt)pp[0] });
            if (v[pp[0]]) {
                put(at, len, (get(at, len) + a) & (((u64)1 << len) - 1));
            }
            break;
        }
        default: {
            const int b = p[0];
            o << "M " << b;
            const bool r = q->M((bitLenInt)b);
            if (r != v[b]) {
                log(o.str());
                c.fail(stack + ":classical:M", stack + ": measurement of a classical bit gave the wrong value");
                return;
            }
        }
        }
        log(o.str());
        ++c.cnt["gates"];
        if (g.chance(0.1)) {
            const int b = (int)g.below(n);
            const double pr = q->Prob((bitLenInt)b);
            if (!(std::abs(pr - (v[b] ? 1 : 0)) < TOL)) {
                c.fail(stack + ":classical:" + c.log.back().substr(0, c.log.back().find(' ')),
                    stack + ": qubit " + std::to_string(b) + " of a classical state has probability " + f2s(pr));
                return;
            }
        }
    }
    if (g.chance(0.5)) {
        const double p = q->ProbAll(capOf(v));
        if (!(p > 1 - TOL)) {
            c.fail(stack + ":classical", stack + ": probability of the computed permutation is " + f2s(p));
        }
        log("ProbAll");
    }
    const bitCapInt r = g.chance(0.5) ? q->MAll() : q->MReg(0, (bitLenInt)n);
    for (int i = 0; i < n; ++i) {
        if (bitOf(r, i) != v[i]) {
            c.fail(stack + ":classical", stack + ": bit " + std::to_string(i) + " of the result is wrong");
            break;
        }
    }
    ++c.cnt["comparisons"];
    long& mw = c.cnt["max:width"];
    mw = std::max(mw, (long)n);
    u64 h = hashStr(stack);
    for (auto& l : c.log) {
        h = mix(h, hashStr(l));
    }
    c.programs.insert(h);
    u64 hs = 0;
    for (int i = 0; i < n; ++i) {
        hs = hs * 1000003 + v[i];
    }
    c.states.insert(hs);
}

// ------------------------------------------------------------------------------- disjoint groups, and inverses
void groupsWide(Case& c, const std::vector<std::string>& stacks)
{
    Rng& g = c.g;
    const std::string stack = stacks[g.below(stacks.size())];
    const int n = std::min(maxWidth(), g.range(24, 100));
    auto rg = std::make_shared<qrack_rand_gen>((unsigned)g.next());
    QInterfacePtr q = makeStack(stack, n, 0, rg, true);
    auto log = [&](const std::string& s) {
        c.log.push_back(s);
        if (c.verbose) {
            fprintf(stderr, "  %s\n", s.c_str());
        }
    };
    log(stack + " n=" + std::to_string(n));
    // groups of up to 5 qubits, scattered
    const vi order = g.pick(n, n);
    std::vector<vi> groups;
    std::vector<Ref> refs;
    for (int i = 0; i < n;) {
        const int k = std::min(n - i, g.range(1, 5));
        groups.push_back(vi(order.begin() + i, order.begin() + i + k));
        i += k;
    }
    std::vector<bool> init(n, false);
    for (int i = 0; i < n; ++i) {
        init[i] = g.chance(0.3);
    }
    q->SetPermutation(capOf(init));
    for (auto& gr : groups) {
        u64 p = 0;
        for (size_t i = 0; i < gr.size(); ++i) {
            p |= (u64)init[gr[i]] << i;
        }
        refs.push_back(Ref((int)gr.size(), p));
    }
    const bool inv = g.chance(0.5);
    const int active = g.range(2, (int)groups.size());
    std::vector<std::pair<int, WG>> done;
    const int ops = g.range(20, 150);
    const bool cross = !inv && g.chance(0.5);
    auto apply = [&](int k, const WG& w) {
        log(w.str());
        real(q, w);
        dense(refs[k], w, [&](int x) {
            for (size_t i = 0; i < groups[k].size(); ++i) {
                if (groups[k][i] == x) {
                    return (int)i;
                }
            }
            throw std::logic_error("group");
        });
        ++c.cnt["gates"];
    };
    for (int i = 0; i < ops; ++i) {
        if (cross && g.chance(0.15)) {
            // exchange two qubits of different groups: only the names change
            const int a = (int)g.below(groups.size()), b = (int)g.below(groups.size());
            if (a != b) {
                int &x = groups[a][g.below(groups[a].size())], &y = groups[b][g.below(groups[b].size())];
                log("Swap " + std::to_string(x) + " " + std::to_string(y));
                q->Swap((bitLenInt)x, (bitLenInt)y);
                std::swap(x, y);
            }
            continue;
        }
        const int k = (int)g.below(active);
        const WG w = anyGate(g, groups[k]);
        apply(k, w);
        done.push_back({ k, w });
        if (g.chance(0.03)) {
            const int b = (int)g.below(n);
            (void)q->Prob((bitLenInt)b);
            log("Prob " + std::to_string(b));
        }
    }
    auto verify = [&](const std::string& when) {
        // condition one clone on likely values of some groups, then look at all of another group in it
        QInterfacePtr k2 = q->Clone();
        for (size_t k = 0; k < groups.size() && c.violation.empty(); ++k) {
            const vi& gr = groups[k];
            // conditional probabilities, down one likely branch
            std::vector<int> order = g.pick((int)gr.size(), (int)gr.size());
            Ref m = refs[k];
            for (int i : order) {
                const double p = k2->Prob((bitLenInt)gr[i]), w = m.prob(i);
                ++c.cnt["conditional probabilities compared"];
                if (!(std::abs(p - w) < TOL)) {
                    c.fail(stack + ":groups:" + when, stack + " " + when + ": conditional probability of qubit " + std::to_string(gr[i]) + " is " + f2s(p)
                            + ", should be " + f2s(w));
                    return;
                }
                const bool r = w < 0.1 ? false : (w > 0.9 ? true : g.chance(0.5));
                k2->ForceM((bitLenInt)gr[i], r);
                m.project((u64)1 << i, r ? (u64)1 << i : 0);
            }
        }
    };
    ++c.cnt["comparisons"];
    if (inv) {
        for (size_t i = done.size(); i--;) {
            apply(done[i].first, inverse(done[i].second));
        }
        const double p = q->ProbAll(capOf(init));
        ++c.cnt["inverses compared"];
        if (!(p > 1 - 5e-3)) {
            c.fail(stack + ":inverse", stack + ": after the inverse program the initial permutation has probability " + f2s(p));
        }
    } else {
        if (g.chance(0.5)) {
            verify("Z basis");
        }
        if (c.violation.empty() && g.chance(0.4)) {
            // amplitudes of one group, the others at their most likely permutation: equal up to a common factor
            const int k = (int)g.below(active);
            std::vector<bool> at(n, false);
            double rest = 1;
            for (size_t j = 0; j < groups.size(); ++j) {
                u64 b = 0;
                for (u64 v = 0; v < refs[j].dim(); ++v) {
                    if (std::norm(refs[j].v[v]) > std::norm(refs[j].v[b])) {
                        b = v;
                    }
                }
                if ((int)j != k) {
                    rest *= std::norm(refs[j].v[b]);
                    for (size_t i = 0; i < groups[j].size(); ++i) {
                        at[groups[j][i]] = (b >> i) & 1;
                    }
                }
            }
            if (rest > 1e-4) {
                std::vector<cd> got;
                for (u64 v = 0; v < refs[k].dim(); ++v) {
                    for (size_t i = 0; i < groups[k].size(); ++i) {
                        at[groups[k][i]] = (v >> i) & 1;
                    }
                    const complex a = q->GetAmplitude(capOf(at));
                    got.push_back(cd(a.real(), a.imag()));
                }
                const double f = refs[k].fidelity(got);
                double nn = 0;
                for (auto& a : got) {
                    nn += std::norm(a);
                }
                ++c.cnt["group amplitudes compared"];
                if (!(f > 1 - 2e-3) || !(std::abs(nn / rest - 1) < 2e-2)) {
                    c.fail(stack + ":groups:amplitudes",
                        stack + ": amplitudes of a group have fidelity " + f2s(f) + ", weight " + f2s(nn / rest) + " with its own state");
                }
            }
        }
        if (c.violation.empty()) {
            for (int k = 0; k < active; ++k) {
                for (int x : groups[k]) {
                    if (g.chance(0.5)) {
                        apply(k, { CL1[3 + g.below(7)], { x }, 0, {} });
                    }
                }
            }
            verify("rotated basis");
        }
        if (c.violation.empty()) {
            const bitCapInt r = q->MAll();
            for (size_t k = 0; k < groups.size(); ++k) {
                u64 v = 0;
                for (size_t i = 0; i < groups[k].size(); ++i) {
                    v |= (u64)bitOf(r, groups[k][i]) << i;
                }
                if (std::norm(refs[k].v[v]) < 1e-6) {
                    c.fail(stack + ":groups:MAll", stack + ": a group was measured in an impossible state");
                }
            }
        }
    }
    long& mw = c.cnt["max:width"];
    mw = std::max(mw, (long)n);
    u64 h = hashStr(stack);
    for (auto& l : c.log) {
        h = mix(h, hashStr(l));
    }
    c.programs.insert(h);
    for (auto& r : refs) {
        c.states.insert(stateHash(r.v));
    }
}
static std::vector<std::string> envStacks(const std::vector<std::string>& d)
{
    const char* s = getenv("VF_STACKS");
    if (!s) {
        return d;
    }
    std::istringstream is(s);
    std::vector<std::string> r;
    std::string t;
    while (is >> t) {
        r.push_back(t);
    }
    return r;
}
} // namespace
static RegCheck rSW("stabwide", [](Case& c) { stabWide(c, envStacks({ "stab", "uclif" })); });
static RegCheck rCW("classwide", [](Case& c) { classicalWide(c, envStacks({ "qunit", "qunit_pager", "stab", "uclif" })); });
static RegCheck rGW("groupwide", [](Case& c) { groupsWide(c, envStacks({ "qunit", "qunit_pager" })); });
} // namespace vf
