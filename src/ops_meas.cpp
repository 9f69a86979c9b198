// Measurement, structure (compose, decompose, dispose, allocate, separate, clone), state setting and read-only queries.
#include "ops.hpp"
namespace vf {
#define GEN [=](Rng & g, int n, const Prof& pf, Op& o) -> bool
#define RUN [=](Ctx & x, const Op& o) -> bool
static bitLenInt b(long v) { return (bitLenInt)v; }
static u64 msk(int len) { return ((u64)1 << len) - 1; }

static bool near(double a, double c, double tol) { return std::isfinite(a) && std::fabs(a - c) <= tol; }
static void expectP(Ctx& x, const std::string& what, double got, double want)
{
    ++x.cnt["queries"];
    if (!near(got, want, x.ptol)) {
        x.fail(what + " returned " + f2s(got) + ", the state says " + f2s(want));
    }
}
static void expectV(Ctx& x, const std::string& what, double got, double want, double scale)
{
    ++x.cnt["queries"];
    if (!near(got, want, x.ptol * (1 + scale))) {
        x.fail(what + " returned " + f2s(got) + ", the state says " + f2s(want));
    }
}
static bool observe(Ctx& x, const std::string& what, u64 mask, u64 val)
{
    ++x.cnt["measurements"];
    if (val & ~mask) {
        x.fail(what + " returned bits outside of what it measured");
        return false;
    }
    const double p = x.r.probMask(mask, val);
    if (!possible(x, p, what + " gave an outcome")) {
        return false;
    }
    if (p < 0.999) {
        ++x.cnt["random_outcomes"];
    }
    x.r.project(mask, val);
    return true;
}
static u64 spread(const vi& bits, u64 v)
{
    u64 r = 0;
    for (size_t i = 0; i < bits.size(); ++i) {
        if ((v >> i) & 1) {
            r |= (u64)1 << bits[i];
        }
    }
    return r;
}
static u64 vmask(const vi& bits) { return spread(bits, ~(u64)0); }
static u64 gather(const vi& bits, u64 i)
{
    u64 r = 0;
    for (size_t k = 0; k < bits.size(); ++k) {
        r |= ((i >> bits[k]) & 1) << k;
    }
    return r;
}
static bool clearBits(Ctx& x, const vi& bits)
{
    for (int t : bits) {
        const bool v = x.q->M(b(t));
        if (!observe(x, "M", (u64)1 << t, v ? (u64)1 << t : 0)) {
            return false;
        }
        if (v) {
            x.q->X(b(t));
            x.r.permute([&](u64 k) { return k ^ ((u64)1 << t); });
        }
    }
    return true;
}
// an outcome of the masked bits that has a decent probability, chosen by `pick` in [0,1)
static u64 likely(const Ref& r, u64 mask, double pick)
{
    std::map<u64, double> m;
    for (u64 i = 0; i < r.dim(); ++i) {
        m[i & mask] += std::norm(r.v[i]);
    }
    std::vector<u64> ok;
    for (auto& e : m) {
        if (e.second > 0.02) {
            ok.push_back(e.first);
        }
    }
    if (ok.empty()) {
        double best = -1;
        u64 v = 0;
        for (auto& e : m) {
            if (e.second > best) {
                best = e.second;
                v = e.first;
            }
        }
        return v;
    }
    return ok[std::min(ok.size() - 1, (size_t)(pick * ok.size()))];
}
// after this the register [s, s+len) is in a product state with the rest, and not just a basis state
static bool makeSeparable(Ctx& x, int s, int len, u64 seed, int level)
{
    if (len >= x.r.n) {
        return true;
    }
    Rng g(seed);
    if (!x.r.separable(s, len, 1e-7)) {
        const u64 mask = msk(len) << s;
        const u64 v = U(x.q->MReg(b(s), b(len)));
        if (!observe(x, "MReg", mask, v << s)) {
            return false;
        }
    }
    const cd h[4] = { M_SQRT1_2, M_SQRT1_2, M_SQRT1_2, -M_SQRT1_2 };
    const cd sg[4] = { 1, 0, 0, cd(0, 1) };
    const cd tg[4] = { 1, 0, 0, cd(M_SQRT1_2, M_SQRT1_2) };
    const cd xg[4] = { 0, 1, 1, 0 };
    for (int k = 0; k < 2 * len; ++k) {
        const int t = s + (int)g.below(len);
        const int w = (int)g.below(4);
        if (w == 0) {
            x.q->H(b(t));
            x.r.mtrx(h, t);
        } else if (w == 1) {
            x.q->S(b(t));
            x.r.mtrx(sg, t);
        } else if (w == 2 && level > 0) {
            x.q->T(b(t));
            x.r.mtrx(tg, t);
        } else if (len > 1) {
            int c = s + (int)g.below(len);
            if (c != t) {
                x.q->CNOT(b(c), b(t));
                x.r.mtrx(vi{ c }, 1, xg, t);
            }
        }
    }
    return true;
}
static QInterfacePtr randomSim(Ctx& x, int n, u64 seed, int level, Ref& r)
{
    Rng g(seed);
    const u64 p = g.below((u64)1 << n);
    QInterfacePtr q = x.make(n, p);
    r = Ref(n, p);
    const cd h[4] = { M_SQRT1_2, M_SQRT1_2, M_SQRT1_2, -M_SQRT1_2 };
    const cd sg[4] = { 1, 0, 0, cd(0, 1) };
    const cd tg[4] = { 1, 0, 0, cd(M_SQRT1_2, M_SQRT1_2) };
    const cd xg[4] = { 0, 1, 1, 0 };
    const int k = (int)g.below(3 * n + 1);
    for (int i = 0; i < k; ++i) {
        const int t = (int)g.below(n), w = (int)g.below(level > 0 ? 4 : 3);
        if (w == 0) {
            q->H(b(t));
            r.mtrx(h, t);
        } else if (w == 1) {
            q->S(b(t));
            r.mtrx(sg, t);
        } else if (w == 2) {
            const int c = (int)g.below(n);
            if (c != t) {
                q->CNOT(b(c), b(t));
                r.mtrx(vi{ c }, 1, xg, t);
            }
        } else {
            q->T(b(t));
            r.mtrx(tg, t);
        }
    }
    return q;
}
static void checkPart(Ctx& x, const std::string& what, QInterfacePtr d, const Ref& part)
{
    ++x.cnt["parts_checked"];
    if (!d || (int)d->GetQubitCount() != part.n) {
        x.fail(what + ": the separated part has the wrong width");
        return;
    }
    const double f = part.fidelity(readState(d));
    if (!(f > 1 - 1e-3)) {
        x.fail(what + ": the separated part has fidelity " + f2s(f) + " with the subsystem state");
    }
}

void registerMeas()
{
    auto gBits = [](Rng& g, int n, Op& o, int maxK) {
        vi v = g.pick(n, g.range(1, std::min(n, maxK)));
        o.q.assign(v.begin(), v.end());
        return true;
    };
    auto gReg = [](Rng& g, int n, Op& o) {
        const int s = g.range(0, n - 1);
        o.q = { s, g.range(1, n - s) };
        return true;
    };
    // ------------------------------------------------------------------------------------------- measurement
    Reg("M", T_MEAS, 0, 1, GEN { o.q = { g.range(0, n - 1) }; return true; }, RUN {
        const u64 m = (u64)1 << o.q[0];
        const bool v = x.q->M(b(o.q[0]));
        if (!observe(x, "M", m, v ? m : 0)) {
            return true;
        }
        if (x.q->M(b(o.q[0])) != v) {
            x.fail("M repeated on the same qubit gave another outcome");
        }
        return true;
    });
    Reg("ForceM", T_MEAS, 0, 1, GEN { o.q = { g.range(0, n - 1) }; o.p = { g.unit() }; return true; }, RUN {
        const u64 m = (u64)1 << o.q[0];
        const bool want = likely(x.r, m, o.p[0]) != 0;
        const bool v = x.q->ForceM(b(o.q[0]), want, true, true);
        if (v != want) {
            x.fail("ForceM did not return the forced outcome");
            return true;
        }
        observe(x, "ForceM", m, v ? m : 0);
        return true;
    });
    Reg("ForceMsample", T_MEAS, 0, 1, GEN { o.q = { g.range(0, n - 1) }; return true; }, RUN {
        // neither forced nor applied: a sample, the state stays
        const bool v = x.q->ForceM(b(o.q[0]), false, false, false);
        const double p = x.r.prob(o.q[0]);
        x.trace += v ? " 1" : " 0";
        possible(x, v ? p : 1 - p, "ForceM(no apply) sampled an outcome");
        return true;
    });
    Reg("MReg", T_MEAS, 0, 1, GEN { return gReg(g, n, o); }, RUN {
        const u64 v = U(x.q->MReg(b(o.q[0]), b(o.q[1])));
        observe(x, "MReg", msk(o.q[1]) << o.q[0], v << o.q[0]);
        return true;
    });
    Reg("ForceMReg", T_MEAS, 0, 1, GEN { gReg(g, n, o); o.p = { g.unit() }; return true; }, RUN {
        const u64 m = msk(o.q[1]) << o.q[0];
        const u64 want = likely(x.r, m, o.p[0]);
        const u64 v = U(x.q->ForceMReg(b(o.q[0]), b(o.q[1]), B(want >> o.q[0]), true, true)) << o.q[0];
        if (v != want) {
            x.fail("ForceMReg did not return the forced outcome");
            return true;
        }
        observe(x, "ForceMReg", m, v);
        return true;
    });
    Reg("MAll", T_MEAS, 0, 1, GEN { return true; }, RUN {
        const u64 v = U(x.q->MAll());
        observe(x, "MAll", msk(x.r.n), v);
        return true;
    });
    Reg("Mbits", T_MEAS, 0, 1, GEN { return gBits(g, n, o, 4); }, RUN {
        vi bits(o.q.begin(), o.q.end());
        const u64 v = U(x.q->M(Q(bits)));
        observe(x, "M(bits)", vmask(bits), v);
        return true;
    });
    Reg("ForceMbits", T_MEAS, 0, 1, GEN { gBits(g, n, o, 4); o.p = { g.unit() }; return true; }, RUN {
        vi bits(o.q.begin(), o.q.end());
        const u64 m = vmask(bits), want = likely(x.r, m, o.p[0]);
        std::vector<bool> vals;
        for (int t : bits) {
            vals.push_back((want >> t) & 1);
        }
        const u64 v = U(x.q->ForceM(Q(bits), vals));
        if (v != want) {
            x.fail("ForceM(bits) did not return the forced outcome");
            return true;
        }
        observe(x, "ForceM(bits)", m, v);
        return true;
    });
    for (int force = 0; force < 2; ++force) {
        Reg(force ? "ForceMParity" : "MParity", T_MEAS, 1, 1, GEN { o.q = { (long)(1 + g.below(msk(n))) }; o.p = { g.unit() }; return true; }, RUN {
            auto p = std::dynamic_pointer_cast<QParity>(x.q);
            if (!p) {
                return false;
            }
            const double po = x.r.probParity(o.q[0]);
            bool want = o.p[0] < 0.5;
            if ((want ? po : 1 - po) < 0.02) {
                want = !want;
            }
            const bool v = force ? p->ForceMParity(B(o.q[0]), want, true) : p->MParity(B(o.q[0]));
            ++x.cnt["measurements"];
            if (force && v != want) {
                x.fail("ForceMParity did not return the forced outcome");
                return true;
            }
            if (!possible(x, v ? po : 1 - po, "parity measurement gave an outcome")) {
                return true;
            }
            x.r.projectParity(o.q[0], v);
            return true;
        });
    }
    auto shotsCheck = [](Ctx& x, const vi& bits, const std::map<u64, long>& hist, long shots) {
        long tot = 0;
        std::map<u64, double> p;
        for (u64 i = 0; i < x.r.dim(); ++i) {
            p[gather(bits, i)] += std::norm(x.r.v[i]);
        }
        for (auto& e : hist) {
            tot += e.second;
            const double pr = p.count(e.first) ? p[e.first] : 0;
            if (pr < 1e-6) {
                x.fail("MultiShotMeasureMask sampled outcome " + std::to_string(e.first) + " of probability " + f2s(pr));
                return;
            }
            // a 7-sigma band on each count
            const double sd = std::sqrt(shots * pr * (1 - pr)) + 1;
            if (std::fabs(e.second - shots * pr) > 7 * sd) {
                x.fail("MultiShotMeasureMask sampled outcome " + std::to_string(e.first) + " " + std::to_string(e.second) + " times in " +
                    std::to_string(shots) + ", probability " + f2s(pr));
                return;
            }
        }
        for (auto& e : p) {
            if (e.second * shots > 60 && !hist.count(e.first)) {
                x.fail("MultiShotMeasureMask never sampled outcome " + std::to_string(e.first) + " of probability " + f2s(e.second));
                return;
            }
        }
        if (tot != shots) {
            x.fail("MultiShotMeasureMask returned " + std::to_string(tot) + " samples for " + std::to_string(shots) + " shots");
        }
        x.cnt["shots"] += tot;
    };
    Reg("MultiShot", T_MEAS, 0, 1, GEN { gBits(g, n, o, n); o.q.insert(o.q.begin(), g.chance(0.15) ? 1 : g.range(2, 200)); return true; }, RUN {
        vi bits(o.q.begin() + 1, o.q.end());
        std::vector<bitCapInt> pw;
        for (int t : bits) {
            pw.push_back(pow2((bitLenInt)t));
        }
        std::map<bitCapInt, int> h = x.q->MultiShotMeasureMask(pw, (unsigned)o.q[0]);
        std::map<u64, long> hist;
        for (auto& e : h) {
            hist[U(e.first)] += e.second;
            x.trace += " " + std::to_string(U(e.first)) + "*" + std::to_string(e.second);
        }
        shotsCheck(x, bits, hist, o.q[0]);
        return true;
    });
    Reg("MultiShotArr", T_MEAS, 0, 1, GEN { gBits(g, n, o, n); o.q.insert(o.q.begin(), g.chance(0.15) ? 1 : g.range(2, 200)); return true; }, RUN {
        vi bits(o.q.begin() + 1, o.q.end());
        std::vector<bitCapInt> pw;
        for (int t : bits) {
            pw.push_back(pow2((bitLenInt)t));
        }
        std::vector<unsigned long long> a(o.q[0], ~0ULL);
        x.q->MultiShotMeasureMask(pw, (unsigned)o.q[0], a.data());
        std::map<u64, long> hist;
        for (unsigned long long v : a) {
            ++hist[v];
            x.trace += " " + std::to_string(v);
        }
        shotsCheck(x, bits, hist, o.q[0]);
        return true;
    });
    // ------------------------------------------------------------------------------------------- setting
    Reg("SetBit", T_SET, 0, 1, GEN { o.q = { g.range(0, n - 1), g.range(0, 1) }; return true; }, RUN {
        if (!clearBits(x, vi{ (int)o.q[0] })) {
            return true;
        }
        x.q->SetBit(b(o.q[0]), (bool)o.q[1]);
        if (o.q[1]) {
            x.r.permute([&](u64 i) { return i ^ ((u64)1 << o.q[0]); });
        }
        return true;
    });
    Reg("SetReg", T_SET, 0, 1, GEN { gReg(g, n, o); o.q.push_back((long)g.below((u64)1 << o.q[1])); return true; }, RUN {
        vi bits;
        for (int i = 0; i < o.q[1]; ++i) {
            bits.push_back(o.q[0] + i);
        }
        if (!clearBits(x, bits)) {
            return true;
        }
        x.q->SetReg(b(o.q[0]), b(o.q[1]), B(o.q[2]));
        x.r.permute([&](u64 i) { return i | ((u64)o.q[2] << o.q[0]); });
        return true;
    });
    Reg("SetPermutation", T_SET, 0, 1, GEN { o.q = { (long)g.below((u64)1 << n) }; return true; }, RUN {
        x.q->SetPermutation(B(o.q[0]));
        x.r = Ref(x.r.n, o.q[0]);
        return true;
    });
    Reg("SetQuantumState", T_SET, 2, 1, GEN { o.q = { (long)g.below(1 << 30), g.range(0, 2) }; return true; }, RUN {
        Rng g(o.q[0]);
        Ref r(x.r.n);
        for (u64 i = 0; i < r.dim(); ++i) {
            r.v[i] = (o.q[1] == 1 && g.chance(0.6)) ? cd(0) : cd(g.gauss(), g.gauss());
        }
        if (o.q[1] == 2) {
            // product state
            r = Ref(0);
            for (int k = 0; k < x.r.n; ++k) {
                Ref one(1);
                one.v[0] = cd(g.gauss(), g.gauss());
                one.v[1] = g.chance(0.2) ? cd(0) : cd(g.gauss(), g.gauss());
                r.compose(one, k);
            }
        }
        if (r.norm2() < 1e-9) {
            r.v[0] = 1;
        }
        r.normalize();
        std::vector<complex> s;
        for (const cd& c : r.v) {
            s.push_back(C(c));
        }
        x.q->SetQuantumState(s.data());
        x.r = r;
        return true;
    });
    for (int k = 0; k < 4; ++k) {
        static const char* nm[] = { "LSL", "LSR", "ASL", "ASR" };
        Reg(nm[k], T_SET, 0, 2, GEN {
            const int s = g.range(0, n - 2);
            o.q = { s, g.range(2, n - s), 0 };
            o.q[2] = g.range(0, (int)o.q[1] + 1);
            return true;
        }, RUN {
            const int s = o.q[0], len = o.q[1], sh = o.q[2];
            // position map: where does bit i of the register end up, or -1 when it is dropped
            vi to(len, -1);
            const bool arith = k >= 2, left = (k % 2) == 0;
            auto sw = [&](int i) { return !arith ? i : i == len - 1 ? len - 2 : i == len - 2 ? len - 1 : i; };
            for (int i = 0; i < len; ++i) {
                if (!sh) {
                    to[i] = i;
                } else if (sh < len) {
                    const int a = sw(i);
                    const int r = left ? (a + sh) % len : (a + len - sh) % len;
                    bool dropped;
                    if (left) {
                        dropped = r < sh;
                    } else {
                        dropped = arith ? (r >= len - sh - 1 && r < len - 1) : (r >= len - sh);
                    }
                    to[i] = dropped ? -1 : sw(r);
                }
            }
            vi drop;
            for (int i = 0; i < len; ++i) {
                if (to[i] < 0) {
                    drop.push_back(s + i);
                }
            }
            if (!clearBits(x, drop)) {
                return true;
            }
            k == 0 ? x.q->LSL(b(sh), b(s), b(len)) : k == 1 ? x.q->LSR(b(sh), b(s), b(len)) : k == 2 ? x.q->ASL(b(sh), b(s), b(len)) : x.q->ASR(b(sh), b(s), b(len));
            x.r.permute([&](u64 i) {
                u64 r = i & ~(msk(len) << s);
                for (int t = 0; t < len; ++t) {
                    if (to[t] >= 0 && ((i >> (s + t)) & 1)) {
                        r |= (u64)1 << (s + to[t]);
                    }
                }
                return r;
            });
            return true;
        });
    }
    // ------------------------------------------------------------------------------------------- structure
    Reg("Compose", T_STRUCT, 0, 1, GEN { o.q = { g.range(1, 2), g.range(-1, n), (long)g.below(1 << 30), pf.level }; return true; }, RUN {
        if (x.r.n + o.q[0] > x.maxN) {
            return true;
        }
        Ref r2(0);
        QInterfacePtr q2 = randomSim(x, o.q[0], o.q[2], o.q[3], r2);
        const int at = o.q[1] < 0 ? x.r.n : std::min((int)o.q[1], x.r.n);
        const int got = o.q[1] < 0 ? x.q->Compose(q2) : x.q->Compose(q2, b(at));
        ++x.cnt["composes"];
        if (got != at) {
            x.fail("Compose returned start index " + std::to_string(got) + " instead of " + std::to_string(at));
        }
        // the composed-in register is copied, not consumed
        const double f = r2.fidelity(readState(q2));
        if (!(f > 1 - 1e-3)) {
            x.fail("Compose changed the simulator that was composed in (fidelity " + f2s(f) + ")");
        }
        x.r.compose(r2, at);
        return true;
    });
    Reg("ComposeNoClone", T_STRUCT, 0, 1, GEN { o.q = { g.range(1, 2), (long)g.below(1 << 30), pf.level }; return true; }, RUN {
        if (x.r.n + o.q[0] > x.maxN) {
            return true;
        }
        Ref r2(0);
        QInterfacePtr q2 = randomSim(x, o.q[0], o.q[1], o.q[2], r2);
        x.q->ComposeNoClone(q2);
        ++x.cnt["composes"];
        x.r.compose(r2, x.r.n);
        return true;
    });
    Reg("Allocate", T_STRUCT, 0, 1, GEN { o.q = { g.range(0, 2), g.range(-1, n) }; return true; }, RUN {
        if (x.r.n + o.q[0] > x.maxN) {
            return true;
        }
        const int at = o.q[1] < 0 ? x.r.n : std::min((int)o.q[1], x.r.n);
        const int got = o.q[1] < 0 ? x.q->Allocate(b(o.q[0])) : x.q->Allocate(b(at), b(o.q[0]));
        ++x.cnt["allocates"];
        if (got != at) {
            x.fail("Allocate returned start index " + std::to_string(got) + " instead of " + std::to_string(at));
        }
        x.r.compose(Ref(o.q[0]), at);
        return true;
    });
    for (int kind = 0; kind < 3; ++kind) {
        static const char* nm[] = { "DecomposeDest", "Decompose", "Dispose" };
        Reg(nm[kind], T_STRUCT, 0, 2, GEN {
            const int len = g.range(1, std::min(3, n - 1));
            o.q = { g.range(0, n - len), len, (long)g.below(1 << 30), pf.level };
            return true;
        }, RUN {
            const int s = o.q[0], len = o.q[1];
            if (x.r.n - len < 2 || !makeSeparable(x, s, len, o.q[2], o.q[3])) {
                return true;
            }
            Ref part(0);
            if (!x.r.split(s, len, part, 1e-5)) {
                return true;
            }
            ++x.cnt["decomposes"];
            if (kind == 0) {
                QInterfacePtr d = x.make(len, 0);
                x.q->Decompose(b(s), d);
                checkPart(x, "Decompose(start, dest)", d, part);
            } else if (kind == 1) {
                checkPart(x, "Decompose(start, length)", x.q->Decompose(b(s), b(len)), part);
            } else {
                x.q->Dispose(b(s), b(len));
            }
            return true;
        });
    }
    Reg("DisposePerm", T_STRUCT, 0, 2, GEN {
        const int len = g.range(1, std::min(3, n - 1));
        o.q = { g.range(0, n - len), len };
        return true;
    }, RUN {
        const int s = o.q[0], len = o.q[1];
        if (x.r.n - len < 2) {
            return true;
        }
        const u64 v = U(x.q->MReg(b(s), b(len)));
        if (!observe(x, "MReg", msk(len) << s, v << s)) {
            return true;
        }
        Ref part(0);
        x.r.split(s, len, part, 1e-5);
        ++x.cnt["decomposes"];
        x.q->Dispose(b(s), b(len), B(v));
        return true;
    });
    Reg("DecomposeCompose", T_STRUCT, 0, 2, GEN {
        const int len = g.range(1, std::min(3, n - 1));
        o.q = { g.range(0, n - len), len, (long)g.below(1 << 30), pf.level };
        return true;
    }, RUN {
        // taking a separable register out and putting it back changes nothing
        const int s = o.q[0], len = o.q[1];
        if (x.r.n - len < 1 || !makeSeparable(x, s, len, o.q[2], o.q[3])) {
            return true;
        }
        if (!x.r.separable(s, len, 1e-5)) {
            return true;
        }
        ++x.cnt["decomposes"];
        QInterfacePtr d = x.q->Decompose(b(s), b(len));
        x.q->Compose(d, b(s));
        return true;
    });
    Reg("TryDecompose", T_STRUCT, 0, 2, GEN {
        const int len = g.range(1, std::min(3, n - 1));
        o.q = { g.range(0, n - len), len, g.range(0, 1), (long)g.below(1 << 30), pf.level };
        return true;
    }, RUN {
        const int s = o.q[0], len = o.q[1];
        if (x.r.n - len < 2 || (o.q[2] && !makeSeparable(x, s, len, o.q[3], o.q[4]))) {
            return true;
        }
        Ref c = x.r, part(0);
        const bool sep = c.split(s, len, part, 1e-6);
        Ref c2 = x.r, part2(0);
        if (!sep && c2.split(s, len, part2, 0.05)) {
            return true; // too close to call
        }
        QInterfacePtr d = x.make(len, 0);
        ++x.cnt["trydecomposes"];
        const bool did = x.q->TryDecompose(b(s), d, (real1_f)1e-2);
        if (did && !sep) {
            x.fail("TryDecompose reported success on an entangled register");
            return true;
        }
        if (did) {
            ++x.cnt["decomposes"];
            checkPart(x, "TryDecompose", d, part);
            x.r = c;
        } else if (sep) {
            x.fail("TryDecompose refused a separable register");
        }
        return true;
    });
    Reg("TrySeparate", T_SEP, 0, 1, GEN { return gBits(g, n, o, 4); }, RUN {
        vi bits(o.q.begin(), o.q.end());
        ++x.cnt["tryseparates"];
        bool did;
        if (bits.size() == 1) {
            did = x.q->TrySeparate(b(bits[0]));
        } else if (bits.size() == 2) {
            did = x.q->TrySeparate(b(bits[0]), b(bits[1]));
        } else {
            did = x.q->TrySeparate(Q(bits), (real1_f)1e-4);
        }
        if (did && bits.size() != 2) {
            ++x.cnt["separated"];
        }
        return true;
    });
    Reg("CloneSwap", T_SEP, 0, 1, GEN { return true; }, RUN {
        QInterfacePtr c = x.q->Clone();
        x.q = c;
        ++x.cnt["clones"];
        return true;
    });
    Reg("CloneMutate", T_SEP, 0, 1, GEN { o.q = { g.range(0, n - 1), (long)g.below(1 << 30), pf.level }; return true; }, RUN {
        QInterfacePtr c = x.q->Clone();
        ++x.cnt["clones"];
        Rng g(o.q[1]);
        const int n = x.r.n;
        for (int i = 0; i < 4; ++i) {
            const int t = g.below(n);
            switch (g.below(6)) {
            case 0:
                c->H(b(t));
                break;
            case 1:
                c->X(b(t));
                break;
            case 2:
                if (n > 1) {
                    c->CNOT(b(t), b((t + 1) % n));
                }
                break;
            case 3:
                c->M(b(t));
                break;
            case 4:
                c->S(b(t));
                break;
            default:
                c->SetPermutation(B(g.below((u64)1 << n)));
            }
        }
        return true;
    });
    Reg("Finish", T_SEP, 0, 1, GEN { o.q = { g.range(0, 2) }; return true; }, RUN {
        if (o.q[0] == 0) {
            x.q->Finish();
        } else if (o.q[0] == 1) {
            x.q->UpdateRunningNorm();
        } else {
            x.q->UpdateRunningNorm();
            x.q->NormalizeState();
        }
        return true;
    });
    // ------------------------------------------------------------------------------------------- queries
    Reg("qProb", T_QUERY, 0, 1, GEN { o.q = { g.range(0, n - 1) }; return true; }, RUN { expectP(x, "Prob", x.q->Prob(b(o.q[0])), x.r.prob(o.q[0])); return true; });
    for (int anti = 0; anti < 2; ++anti) {
        Reg(anti ? "qACProb" : "qCProb", T_QUERY, 0, 2, GEN { vi v = g.pick(n, 2); o.q = { v[0], v[1] }; return true; }, RUN {
            const u64 c = (u64)1 << o.q[0], t = (u64)1 << o.q[1];
            const double pc = x.r.probMask(c, anti ? 0 : c);
            if (pc < 0.05) {
                return true;
            }
            expectP(x, anti ? "ACProb" : "CProb", anti ? x.q->ACProb(b(o.q[0]), b(o.q[1])) : x.q->CProb(b(o.q[0]), b(o.q[1])), x.r.probMask(c | t, (anti ? 0 : c) | t) / pc);
            return true;
        });
    }
    Reg("qProbAll", T_QUERY, 0, 1, GEN { o.p = { g.unit() }; o.q = { (long)g.below((u64)1 << n) }; return true; }, RUN {
        const u64 k = o.p[0] < 0.5 ? likely(x.r, msk(x.r.n), o.p[0] * 2) : (u64)o.q[0];
        expectP(x, "ProbAll", x.q->ProbAll(B(k)), std::norm(x.r.v[k]));
        return true;
    });
    Reg("qGetAmplitude", T_QUERY, 0, 1, GEN { return true; }, RUN {
        // all amplitudes together: same state up to one global phase
        std::vector<cd> a(x.r.dim());
        for (u64 k = 0; k < x.r.dim(); ++k) {
            const complex c = x.q->GetAmplitude(B(k));
            a[k] = cd((double)real(c), (double)imag(c));
        }
        const double f = x.r.fidelity(a);
        ++x.cnt["queries"];
        if (!(f > 1 - 1e-3)) {
            x.fail("the amplitudes from GetAmplitude have fidelity " + f2s(f) + " with the state");
        }
        double s = 0;
        for (const cd& c : a) {
            s += std::norm(c);
        }
        if (!near(s, 1, 2e-3)) {
            x.fail("the amplitudes from GetAmplitude have squared norm " + f2s(s));
        }
        return true;
    });
    Reg("qGetProbs", T_QUERY, 0, 1, GEN { return true; }, RUN {
        std::vector<real1> p(x.r.dim(), (real1)7);
        x.q->GetProbs(p.data());
        for (u64 k = 0; k < x.r.dim(); ++k) {
            expectP(x, "GetProbs", (double)p[k], std::norm(x.r.v[k]));
        }
        return true;
    });
    Reg("qProbReg", T_QUERY, 0, 1, GEN { gReg(g, n, o); o.p = { g.unit() }; o.q.push_back((long)g.below((u64)1 << o.q[1])); return true; }, RUN {
        const u64 m = msk(o.q[1]) << o.q[0];
        const u64 v = o.p[0] < 0.6 ? likely(x.r, m, o.p[0] / 0.6) >> o.q[0] : (u64)o.q[2];
        expectP(x, "ProbReg", x.q->ProbReg(b(o.q[0]), b(o.q[1]), B(v)), x.r.probMask(m, v << o.q[0]));
        return true;
    });
    Reg("qProbMask", T_QUERY, 0, 1, GEN { o.q = { (long)g.below((u64)1 << n), (long)g.below((u64)1 << n) }; o.p = { g.unit() }; return true; }, RUN {
        const u64 m = o.q[0];
        const u64 v = o.p[0] < 0.6 ? likely(x.r, m, o.p[0] / 0.6) : ((u64)o.q[1] & m);
        expectP(x, "ProbMask", x.q->ProbMask(B(m), B(v)), x.r.probMask(m, v));
        return true;
    });
    Reg("qProbMaskAll", T_QUERY, 0, 1, GEN { o.q = { (long)(1 + g.below(msk(n))) }; return true; }, RUN {
        vi bits;
        for (int i = 0; i < x.r.n; ++i) {
            if ((o.q[0] >> i) & 1) {
                bits.push_back(i);
            }
        }
        std::vector<real1> p((size_t)1 << bits.size(), (real1)7);
        x.q->ProbMaskAll(B(o.q[0]), p.data());
        for (u64 k = 0; k < p.size(); ++k) {
            expectP(x, "ProbMaskAll", (double)p[k], x.r.probMask(o.q[0], spread(bits, k)));
        }
        return true;
    });
    Reg("qProbBitsAll", T_QUERY, 0, 1, GEN { return gBits(g, n, o, n); }, RUN {
        vi bits(o.q.begin(), o.q.end());
        std::vector<real1> p((size_t)1 << bits.size(), (real1)7);
        x.q->ProbBitsAll(Q(bits), p.data());
        for (u64 k = 0; k < p.size(); ++k) {
            expectP(x, "ProbBitsAll", (double)p[k], x.r.probMask(vmask(bits), spread(bits, k)));
        }
        return true;
    });
    Reg("qProbParity", T_QUERY, 0, 1, GEN { o.q = { (long)g.below((u64)1 << n) }; return true; }, RUN {
        auto p = std::dynamic_pointer_cast<QParity>(x.q);
        if (!p) {
            return false;
        }
        expectP(x, "ProbParity", p->ProbParity(B(o.q[0])), x.r.probParity(o.q[0]));
        return true;
    });
    for (int var = 0; var < 2; ++var) {
        Reg(var ? "qVarianceBitsAll" : "qExpectationBitsAll", T_QUERY, 0, 1, GEN { gBits(g, n, o, n); o.q.insert(o.q.begin(), g.chance(0.3) ? (long)g.range(1, 9) : 0); return true; }, RUN {
            vi bits(o.q.begin() + 1, o.q.end());
            double e = 0, e2 = 0;
            for (u64 i = 0; i < x.r.dim(); ++i) {
                const double v = (double)gather(bits, i) + o.q[0], p = std::norm(x.r.v[i]);
                e += v * p;
                e2 += v * v * p;
            }
            const double top = std::pow(2.0, bits.size()) + o.q[0];
            if (var) {
                expectV(x, "VarianceBitsAll", x.q->VarianceBitsAll(Q(bits), B(o.q[0])), e2 - e * e, top * top);
            } else {
                expectV(x, "ExpectationBitsAll", x.q->ExpectationBitsAll(Q(bits), B(o.q[0])), e, top);
            }
            return true;
        });
        for (int fl = 0; fl < 2; ++fl) {
            static const char* nm[] = { "qExpectationBitsFactorized", "qExpectationFloatsFactorized", "qVarianceBitsFactorized", "qVarianceFloatsFactorized" };
            Reg(nm[2 * var + fl], T_QUERY, 0, 1, GEN {
                gBits(g, n, o, 4);
                for (size_t k = 0; k < 2 * o.q.size(); ++k) {
                    o.p.push_back(fl ? g.uni(-3, 3) : (double)g.range(0, 7));
                }
                o.q.insert(o.q.begin(), fl ? 0 : g.range(0, 3));
                return true;
            }, RUN {
                vi bits(o.q.begin() + 1, o.q.end());
                double e = 0, e2 = 0;
                for (u64 i = 0; i < x.r.dim(); ++i) {
                    double v = o.q[0];
                    for (size_t k = 0; k < bits.size(); ++k) {
                        v += o.p[2 * k + ((i >> bits[k]) & 1)];
                    }
                    const double p = std::norm(x.r.v[i]);
                    e += v * p;
                    e2 += v * v * p;
                }
                double got;
                if (fl) {
                    std::vector<real1_f> w(o.p.begin(), o.p.end());
                    got = var ? x.q->VarianceFloatsFactorized(Q(bits), w) : x.q->ExpectationFloatsFactorized(Q(bits), w);
                } else {
                    std::vector<bitCapInt> w;
                    for (double d : o.p) {
                        w.push_back(B((u64)d));
                    }
                    got = var ? x.q->VarianceBitsFactorized(Q(bits), w, B(o.q[0])) : x.q->ExpectationBitsFactorized(Q(bits), w, B(o.q[0]));
                }
                expectV(x, nm[2 * var + fl] + 1, got, var ? e2 - e * e : e, var ? 200 : 10);
                return true;
            });
        }
    }
    Reg("qCompare", T_QUERY, 0, 1, GEN { o.q = { g.range(0, n - 1), g.range(0, 2) }; return true; }, RUN {
        QInterfacePtr c = x.q->Clone();
        Ref r2 = x.r;
        const cd h[4] = { M_SQRT1_2, M_SQRT1_2, M_SQRT1_2, -M_SQRT1_2 };
        const cd z[4] = { 1, 0, 0, -1 };
        if (o.q[1] == 1) {
            c->H(b(o.q[0]));
            r2.mtrx(h, o.q[0]);
        } else if (o.q[1] == 2) {
            c->Z(b(o.q[0]));
            r2.mtrx(z, o.q[0]);
        }
        const double want = 1 - x.r.fidelity(r2.v);
        const double got = x.q->SumSqrDiff(c);
        expectV(x, "SumSqrDiff", got, want, 4);
        if (want < 1e-9 && !x.q->ApproxCompare(c, (real1_f)1e-2)) {
            x.fail("ApproxCompare is false for a simulator and its clone");
        }
        if (want > 0.1 && x.q->ApproxCompare(c, (real1_f)1e-2)) {
            x.fail("ApproxCompare is true for states of distance " + f2s(want));
        }
        return true;
    });
    for (int var = 0; var < 2; ++var) {
        Reg(var ? "qVariancePauli" : "qExpectationPauli", T_QUERY, 0, 1, GEN { o.q = { g.range(0, n - 1), g.range(1, 3) }; return true; }, RUN {
            // single-qubit observables (the documented tensor product and the factorized sum agree there)
            Ref r2 = x.r;
            const cd h[4] = { M_SQRT1_2, M_SQRT1_2, M_SQRT1_2, -M_SQRT1_2 };
            const cd is[4] = { 1, 0, 0, cd(0, -1) };
            Pauli p = PauliZ;
            if (o.q[1] == 1) {
                p = PauliX;
                r2.mtrx(h, o.q[0]);
            } else if (o.q[1] == 2) {
                p = PauliY;
                r2.mtrx(is, o.q[0]);
                r2.mtrx(h, o.q[0]);
            }
            const double e = 1 - 2 * r2.prob(o.q[0]);
            const std::vector<bitLenInt> bits{ b(o.q[0]) };
            const std::vector<Pauli> ps{ p };
            expectV(x, var ? "VariancePauliAll" : "ExpectationPauliAll", var ? x.q->VariancePauliAll(bits, ps) : x.q->ExpectationPauliAll(bits, ps), var ? 1 - e * e : e, 2);
            return true;
        });
        for (int mt = 0; mt < 2; ++mt) {
            Reg((var ? (mt ? "qVarianceUnitaryM" : "qVarianceUnitary") : (mt ? "qExpectationUnitaryM" : "qExpectationUnitary")), T_QUERY, 2, 1, GEN {
                gBits(g, n, o, 3);
                for (size_t k = 0; k < o.q.size(); ++k) {
                    for (int j = 0; j < 3; ++j) {
                        o.p.push_back(g.uni(-3, 3));
                    }
                    o.p.push_back(g.uni(-3, 3));
                    o.p.push_back(g.uni(-3, 3));
                }
                return true;
            }, RUN {
                vi bits(o.q.begin(), o.q.end());
                Ref r2 = x.r;
                std::vector<real1_f> ev, pr;
                std::vector<std::shared_ptr<complex>> ms;
                for (size_t k = 0; k < bits.size(); ++k) {
                    const double th = o.p[5 * k], ph = o.p[5 * k + 1], la = o.p[5 * k + 2];
                    auto ex = [](double t) { return cd(std::cos(t), std::sin(t)); };
                    const cd m[4] = { std::cos(th / 2), -ex(la) * std::sin(th / 2), ex(ph) * std::sin(th / 2), ex(ph + la) * std::cos(th / 2) };
                    const cd inv[4] = { std::conj(m[0]), std::conj(m[2]), std::conj(m[1]), std::conj(m[3]) };
                    r2.mtrx(inv, bits[k]);
                    std::shared_ptr<complex> sp(new complex[4], std::default_delete<complex[]>());
                    for (int j = 0; j < 4; ++j) {
                        sp.get()[j] = C(m[j]);
                    }
                    ms.push_back(sp);
                    pr.push_back(th);
                    pr.push_back(ph);
                    pr.push_back(la);
                    ev.push_back(o.p[5 * k + 3]);
                    ev.push_back(o.p[5 * k + 4]);
                }
                double e = 0, e2 = 0;
                for (u64 i = 0; i < r2.dim(); ++i) {
                    double v = 0;
                    for (size_t k = 0; k < bits.size(); ++k) {
                        v += ev[2 * k + ((i >> bits[k]) & 1)];
                    }
                    e += v * std::norm(r2.v[i]);
                    e2 += v * v * std::norm(r2.v[i]);
                }
                double got;
                if (mt) {
                    got = var ? x.q->VarianceUnitaryAll(Q(bits), ms, ev) : x.q->ExpectationUnitaryAll(Q(bits), ms, ev);
                } else {
                    got = var ? x.q->VarianceUnitaryAll(Q(bits), pr, ev) : x.q->ExpectationUnitaryAll(Q(bits), pr, ev);
                }
                expectV(x, var ? "VarianceUnitaryAll" : "ExpectationUnitaryAll", got, var ? e2 - e * e : e, var ? 100 : 10);
                return true;
            });
        }
    }
}
} // namespace vf
