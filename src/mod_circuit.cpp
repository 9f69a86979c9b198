// P14 / P16: circuit objects against the plain list of gates they were given.
#include "harness.hpp"
#include "qcircuit.hpp"
#include <sstream>
namespace vf {
namespace {
struct RG {
    int t;
    vi c; // ascending
    std::map<u64, std::vector<cd>> m; // control permutation -> matrix
};
struct Circ {
    QCircuitPtr c;
    std::vector<RG> g;
    bool collapse, clifford;
};
void genM(Rng& g, int level, std::vector<cd>& m)
{
    Prof pf;
    pf.level = level;
    std::vector<double> p;
    genMtrx(g, pf, p);
    m.clear();
    for (int i = 0; i < 4; ++i) {
        m.push_back(cd(p[2 * i], p[2 * i + 1]));
    }
}
QCircuitGatePtr toGate(const RG& r, int how)
{
    auto cm = [](const std::vector<cd>& m) {
        std::vector<complex> o;
        for (auto& a : m) {
            o.push_back(C(a));
        }
        return o;
    };
    const std::set<bitLenInt> cs(r.c.begin(), r.c.end());
    if (r.m.size() == 1 && r.c.empty() && how) {
        return std::make_shared<QCircuitGate>((bitLenInt)r.t, cm(r.m.begin()->second).data());
    }
    if (r.m.size() == 1) {
        return std::make_shared<QCircuitGate>((bitLenInt)r.t, cm(r.m.begin()->second).data(), cs, B(r.m.begin()->first));
    }
    std::map<bitCapInt, std::shared_ptr<complex>> pl;
    for (auto& e : r.m) {
        std::shared_ptr<complex> p(new complex[4U], std::default_delete<complex[]>());
        auto v = cm(e.second);
        std::copy(v.begin(), v.end(), p.get());
        pl[B(e.first)] = p;
    }
    return std::make_shared<QCircuitGate>((bitLenInt)r.t, pl, cs);
}
void applyRG(Ref& r, const RG& g)
{
    for (auto& e : g.m) {
        r.mtrx(g.c, e.first, e.second.data(), g.t);
    }
}
std::string gstr(const RG& g)
{
    std::ostringstream o;
    o << "t" << g.t << " c[";
    for (int c : g.c) {
        o << c << " ";
    }
    o << "]";
    for (auto& e : g.m) {
        o << " " << e.first << ":";
        for (auto& a : e.second) {
            char b[50];
            snprintf(b, sizeof b, "(%.4g,%.4g)", a.real(), a.imag());
            o << b;
        }
    }
    return o.str();
}
RG adjoint(const RG& g)
{
    RG r = g;
    for (auto& e : r.m) {
        std::vector<cd>& m = e.second;
        m = { std::conj(m[0]), std::conj(m[2]), std::conj(m[1]), std::conj(m[3]) };
    }
    return r;
}
RG genGate(Rng& g, int n, int level, const std::vector<RG>& before)
{
    if (!before.empty() && g.chance(0.25)) { // undo or repeat something recent, perhaps with a changed control
        RG r = before[before.size() - 1 - g.below(std::min<size_t>(before.size(), 6))];
        if (g.chance(0.6)) {
            r = adjoint(r);
        }
        if (g.chance(0.25) && r.m.size() == 1 && !r.c.empty()) {
            std::vector<cd> m = r.m.begin()->second;
            const u64 p = r.m.begin()->first ^ ((u64)1 << g.below(r.c.size()));
            r.m.clear();
            r.m[p] = m;
        }
        return r;
    }
    RG r;
    const int nc = std::min(n - 1, g.chance(0.35) ? 0 : (g.chance(0.6) ? 1 : g.range(1, 3)));
    vi q = g.pick(n, nc + 1);
    r.t = q[0];
    r.c = vi(q.begin() + 1, q.end());
    std::sort(r.c.begin(), r.c.end());
    const u64 P = (u64)1 << nc;
    const int np = g.chance(0.75) ? 1 : (int)(1 + g.below(P));
    std::vector<cd> m;
    for (int k = 0; k < np; ++k) {
        const u64 p = g.chance(0.5) ? P - 1 : g.below(P);
        if (k == 0 || g.chance(0.7)) {
            genM(g, level, m);
        }
        r.m[p] = m;
    }
    return r;
}
Ref startState(Rng& g, QInterfacePtr q, int n)
{
    for (int i = 0; i < n; ++i) {
        q->RY((real1_f)g.uni(0, 6), (bitLenInt)i);
        q->RZ((real1_f)g.uni(0, 6), (bitLenInt)i);
    }
    for (int i = 0; i + 1 < n; ++i) {
        q->CNOT((bitLenInt)i, (bitLenInt)(i + 1));
        q->RY((real1_f)g.uni(0, 6), (bitLenInt)i);
    }
    Ref r(n);
    r.v = readState(q->Clone());
    r.normalize();
    return r;
}
QInterfacePtr simFor(Rng& g, int n, const std::string& stack, u64 perm = 0)
{
    auto rg = std::make_shared<qrack_rand_gen>();
    rg->seed((uint32_t)g.next());
    return makeStack(stack, n, perm, rg, false);
}
std::string runAndCompare(Case& c, Rng& g, const Circ& k, int n, const char* what)
{
    QInterfacePtr q = simFor(g, n, "cpu");
    Ref r = startState(g, q, n);
    try {
        k.c->Run(q);
    } catch (const std::exception& e) {
        return std::string(what) + ": running the circuit threw: " + e.what();
    }
    for (auto& x : k.g) {
        applyRG(r, x);
    }
    if ((int)q->GetQubitCount() != n) {
        return std::string(what) + ": running the circuit changed the number of qubits to " + std::to_string((int)q->GetQubitCount());
    }
    const double f = r.fidelity(readState(q));
    c.states.insert(stateHash(r.v));
    ++c.cnt["circuits run"];
    if (!(f > 1 - 1e-3)) {
        return std::string(what) + ": the circuit's state has fidelity " + f2s(f) + " with the gates in their order";
    }
    return "";
}
} // namespace
static void circuitCase(Case& c, bool onlySerial)
{
    registerAll();
    Rng& g = c.g;
    const int n = g.range(1, 6);
    const int level = g.chance(0.5) ? 0 : (g.chance(0.5) ? 1 : 2);
    std::vector<Circ> cs;
    auto fresh = [&](bool col, bool cl) {
        Circ k;
        k.collapse = col;
        k.clifford = cl;
        k.c = std::make_shared<QCircuit>(col, cl);
        return k;
    };
    cs.push_back(fresh(g.chance(0.85), g.chance(0.2)));
    c.log.push_back("n=" + std::to_string(n) + " collapse=" + std::to_string(cs[0].collapse) + " clifford=" + std::to_string(cs[0].clifford));
    const int steps = g.range(3, 45);
    u64 h = hashStr(c.log[0]);
    std::string bad;
    auto note = [&](const std::string& s) {
        c.log.push_back(s);
        h = mix(h, hashStr(s));
        if (c.verbose) {
            fprintf(stderr, "%s\n", s.c_str());
        }
    };
    for (int s = 0; s < steps && bad.empty(); ++s) {
        const int i = (int)g.below(cs.size());
        Circ& k = cs[i];
        const double z = onlySerial ? (g.chance(0.15) ? 0.9 : 0.1) : g.unit();
        const std::string me = "circuit " + std::to_string(i) + " ";
        if (z < 0.72) {
            RG r = genGate(g, n, level, k.g);
            note(me + "append " + gstr(r));
            k.c->AppendGate(toGate(r, g.chance(0.5)));
            k.g.push_back(r);
        } else if (z < 0.77 && n > 1) {
            vi q = g.pick(n, 2);
            note(me + "swap " + std::to_string(q[0]) + " " + std::to_string(q[1]));
            k.c->Swap((bitLenInt)q[0], (bitLenInt)q[1]);
            const std::vector<cd> X = { 0, 1, 1, 0 };
            for (int j = 0; j < 3; ++j) {
                RG r;
                r.t = q[j & 1];
                r.c = { q[1 - (j & 1)] };
                r.m[1] = X;
                k.g.push_back(r);
            }
        } else if (z < 0.80) {
            if (cs.size() < 4) {
                note(me + "clone");
                Circ d = k;
                d.c = k.c->Clone();
                cs.push_back(d);
            }
        } else if (z < 0.83) {
            if (cs.size() < 4) {
                note(me + "inverse");
                Circ d = k;
                d.c = k.c->Inverse();
                std::reverse(d.g.begin(), d.g.end());
                for (auto& x : d.g) {
                    x = adjoint(x);
                }
                cs.push_back(d);
            }
        } else if (z < 0.86) {
            const int j = (int)g.below(cs.size());
            if (i != j && k.g.size() + cs[j].g.size() < 200) {
                const bool app = g.chance(0.5);
                note(me + (app ? "append circuit " : "combine circuit ") + std::to_string(j));
                if (app) {
                    k.c->Append(cs[j].c);
                } else {
                    k.c->Combine(cs[j].c);
                }
                k.g.insert(k.g.end(), cs[j].g.begin(), cs[j].g.end());
            }
        } else if (z < 0.92) {
            note(me + "save and load");
            std::stringstream ss;
            ss << k.c;
            const std::string text = ss.str();
            Circ d = k;
            d.c = std::make_shared<QCircuit>(k.collapse, k.clifford);
            if (g.chance(0.3)) { // into a circuit that is in use
                RG r = genGate(g, n, level, k.g);
                d.c->AppendGate(toGate(r, 1));
            }
            ss >> d.c;
            if (d.c->GetQubitCount() != k.c->GetQubitCount()) {
                bad = "a loaded circuit has a different number of qubits";
            }
            if (bad.empty()) {
                bad = runAndCompare(c, g, d, n, "loaded circuit");
            }
            std::stringstream s2;
            s2 << d.c;
            if (bad.empty() && s2.str() != text) {
                bad = "a loaded circuit is not printed as it was";
            }
            ++c.cnt["round trips"];
            if (g.chance(0.5)) {
                cs[i] = d;
            }
        } else if (z < 0.96) {
            bad = runAndCompare(c, g, k, n, "circuit");
        } else {
            // past light cone of a few qubits
            std::set<bitLenInt> keep;
            for (int x : g.pick(n, g.range(1, n))) {
                keep.insert((bitLenInt)x);
            }
            const std::set<bitLenInt> want = keep;
            std::string t;
            for (int x : want) {
                t += " " + std::to_string(x);
            }
            note(me + "past light cone of" + t);
            QCircuitPtr lc = k.c->PastLightCone(keep);
            for (bitLenInt x : want) {
                if (!keep.count(x)) {
                    bad = "the past light cone lost a requested qubit";
                }
            }
            QInterfacePtr a = simFor(g, n, "cpu");
            Ref r(n);
            lc->Run(a);
            for (auto& x : k.g) {
                applyRG(r, x);
            }
            std::vector<cd> sv = readState(a);
            // reduced density matrices on the requested qubits
            vi w(want.begin(), want.end());
            const u64 D = (u64)1 << w.size();
            auto rdm = [&](const std::vector<cd>& v) {
                u64 wm = 0;
                for (int x : w) {
                    wm |= (u64)1 << x;
                }
                auto sub = [&](u64 x) {
                    u64 o = 0;
                    for (size_t b = 0; b < w.size(); ++b) {
                        o |= ((x >> w[b]) & 1) << b;
                    }
                    return o;
                };
                std::vector<cd> m(D * D, 0);
                for (u64 x = 0; x < v.size(); ++x) {
                    for (u64 y = 0; y < D; ++y) {
                        u64 z2 = x & ~wm;
                        for (size_t b = 0; b < w.size(); ++b) {
                            z2 |= ((y >> b) & 1) << w[b];
                        }
                        m[sub(x) * D + y] += v[x] * std::conj(v[z2]);
                    }
                }
                return m;
            };
            std::vector<cd> m1 = rdm(sv), m2 = rdm(r.v);
            double d = 0;
            for (size_t x = 0; x < m1.size(); ++x) {
                d = std::max(d, std::abs(m1[x] - m2[x]));
            }
            ++c.cnt["light cones"];
            if (!(d < 1e-3) && bad.empty()) {
                bad = "the past light cone gives a different state of the requested qubits (density matrix differs by " + f2s(d) + ")";
            }
        }
    }
    for (size_t i = 0; i < cs.size() && bad.empty(); ++i) {
        const std::string w = "final, circuit " + std::to_string(i);
        int need = 0;
        bad = runAndCompare(c, g, cs[i], n, w.c_str());
        c.cnt["gates appended"] += cs[i].g.size();
        c.cnt["gates kept"] += cs[i].c->GetGateList().size();
        // the reported qubit count covers all gates
        for (auto& x : cs[i].c->GetGateList()) {
            need = std::max(need, (int)x->target + 1);
            for (bitLenInt y : x->controls) {
                need = std::max(need, (int)y + 1);
            }
        }
        if (bad.empty() && (int)cs[i].c->GetQubitCount() < need) {
            bad = "the circuit reports " + std::to_string((int)cs[i].c->GetQubitCount()) + " qubits but acts on qubit " + std::to_string(need - 1);
        }
    }
    c.programs.insert(h);
    if (!bad.empty()) {
        c.fail(bad.substr(0, 30), bad);
    }
}
static RegCheck rCirc("circuit", [](Case& c) { circuitCase(c, false); });
static RegCheck rCircSer("circuit-ser", [](Case& c) { circuitCase(c, true); });
// in-place addition recorded as a circuit
static RegCheck rCircInc("circuit-inc", [](Case& c) {
    registerAll();
    Rng& g = c.g;
    const int n = g.range(1, 7), start = g.range(0, n - 1), len = g.range(1, n - start);
    const u64 add = g.chance(0.2) ? g.next() % 1000 : g.below((u64)1 << len);
    auto k = std::make_shared<QCircuit>(g.chance(0.8), g.chance(0.2));
    std::vector<RG> pre;
    const int np = g.range(0, 6);
    for (int i = 0; i < np; ++i) {
        pre.push_back(genGate(g, n, 2, pre));
        k->AppendGate(toGate(pre.back(), 1));
    }
    k->INC(B(add), (bitLenInt)start, (bitLenInt)len);
    const std::string d = "n=" + std::to_string(n) + " INC(" + std::to_string(add) + ", " + std::to_string(start) + ", " + std::to_string(len) + ") after " + std::to_string(np) + " gates";
    c.log.push_back(d);
    c.programs.insert(mix(hashStr(d), g.s));
    QInterfacePtr q = simFor(g, n, "cpu");
    Ref r = startState(g, q, n);
    k->Run(q);
    for (auto& x : pre) {
        applyRG(r, x);
    }
    const u64 m = ((u64)1 << len) - 1;
    r.permute([&](u64 x) { return (x & ~(m << start)) | (((((x >> start) & m) + add) & m) << start); });
    const double f = r.fidelity(readState(q));
    c.states.insert(stateHash(r.v));
    if (!(f > 1 - 1e-3)) {
        c.fail("INC", d + ": fidelity " + f2s(f));
    }
});
} // namespace vf
