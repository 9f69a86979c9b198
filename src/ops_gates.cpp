#include "ops.hpp"
namespace vf {
std::vector<OpDef>& registry()
{
    static std::vector<OpDef> r;
    return r;
}
const OpDef* findOp(const std::string& name)
{
    static std::map<std::string, size_t> ix;
    if (ix.size() != registry().size()) {
        ix.clear();
        for (size_t i = 0; i < registry().size(); ++i) {
            ix[registry()[i].name] = i;
        }
    }
    auto it = ix.find(name);
    return it == ix.end() ? nullptr : &registry()[it->second];
}
void registerAll()
{
    if (registry().empty()) {
        registerGates();
        registerAlu();
        registerMeas();
        registerClone();
    }
}
std::string f2s(double d)
{
    char b[40];
    snprintf(b, sizeof b, "%.6g", d);
    return b;
}
std::vector<cd> readState(QInterfacePtr q)
{
    const size_t d = (size_t)1 << q->GetQubitCount();
    std::unique_ptr<complex[]> s(new complex[d]);
    q->GetQuantumState(s.get());
    std::vector<cd> r(d);
    for (size_t i = 0; i < d; ++i) {
        r[i] = cd((double)real(s[i]), (double)imag(s[i]));
    }
    return r;
}

double genAngle(Rng& g, const Prof& pf)
{
    if (pf.level == 0) {
        return g.range(-8, 8) * M_PI / 2;
    }
    if (pf.level == 1) {
        return g.range(-16, 16) * M_PI / 4;
    }
    const double c = g.unit();
    if (c < 0.12) {
        return g.range(-4, 4) * M_PI / 2;
    }
    if (c < 0.25) {
        return g.range(-16, 16) * M_PI / 8;
    }
    // away from the points where a separability or identity threshold could legitimately round
    double a = g.uni(0.15, M_PI - 0.15);
    if (a > M_PI / 2 - 0.07 && a < M_PI / 2 + 0.07) {
        a += 0.2;
    }
    return (g.chance(0.5) ? -a : a) + (g.chance(0.2) ? 2 * M_PI : 0);
}

static const cd I(0, 1);
static const double S12 = M_SQRT1_2;
typedef std::vector<cd> M2;
static M2 mul(const M2& a, const M2& b)
{
    return { a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3] };
}
static M2 dag(const M2& a) { return { std::conj(a[0]), std::conj(a[2]), std::conj(a[1]), std::conj(a[3]) }; }
static const M2 mI{ 1, 0, 0, 1 }, mX{ 0, 1, 1, 0 }, mY{ 0, -I, I, 0 }, mZ{ 1, 0, 0, -1 }, mH{ S12, S12, S12, -S12 },
    mS{ 1, 0, 0, I }, mT{ 1, 0, 0, cd(S12, S12) };
// principal square root of a 2x2 operator G with G^2 = 1: ((1+i) + (1-i) G) / 2
static M2 sqrtInv(const M2& g)
{
    M2 r(4);
    for (int k = 0; k < 4; ++k) {
        r[k] = (cd(1, 1) * mI[k] + cd(1, -1) * g[k]) * 0.5;
    }
    return r;
}
static M2 mRot(const M2& pauli, double th)
{
    M2 r(4);
    for (int k = 0; k < 4; ++k) {
        r[k] = std::cos(th / 2) * mI[k] - I * std::sin(th / 2) * pauli[k];
    }
    return r;
}
static M2 mP(cd a, cd b) { return { a, 0, 0, b }; }
static M2 mInv(cd a, cd b) { return { 0, a, b, 0 }; }
static cd ex(double t) { return cd(std::cos(t), std::sin(t)); }
static M2 mU(double th, double ph, double la)
{
    return { std::cos(th / 2), -ex(la) * std::sin(th / 2), ex(ph) * std::sin(th / 2), ex(ph + la) * std::cos(th / 2) };
}
// "azimuth, inclination": takes |0> to the Bloch vector with that azimuth and inclination
static M2 mAI(double az, double in)
{
    return { std::cos(in / 2), -ex(-az) * std::sin(in / 2), ex(az) * std::sin(in / 2), std::cos(in / 2) };
}

void genMtrx(Rng& g, const Prof& pf, std::vector<double>& p)
{
    M2 m = mI;
    if (pf.level < 2) {
        const int k = g.range(1, 5);
        for (int i = 0; i < k; ++i) {
            m = mul(g.chance(0.5) ? mH : ((pf.level == 1 && g.chance(0.3)) ? mT : mS), m);
        }
        if (g.chance(0.3)) {
            m = mul(g.chance(0.5) ? mX : mY, m);
        }
    } else {
        const double c = g.unit();
        if (c < 0.15) {
            m = mP(ex(genAngle(g, pf)), ex(genAngle(g, pf)));
        } else if (c < 0.3) {
            m = mInv(ex(genAngle(g, pf)), ex(genAngle(g, pf)));
        } else {
            m = mU(genAngle(g, pf), genAngle(g, pf), genAngle(g, pf));
        }
        if (g.chance(0.5)) {
            const cd ph = ex(genAngle(g, pf));
            for (cd& x : m) {
                x *= ph;
            }
        }
    }
    for (const cd& x : m) {
        p.push_back(x.real());
        p.push_back(x.imag());
    }
}
void genPhases(Rng& g, const Prof& pf, std::vector<double>& p)
{
    for (int i = 0; i < 2; ++i) {
        const cd x = ex(genAngle(g, pf));
        p.push_back(x.real());
        p.push_back(x.imag());
    }
}
std::vector<cd> cvec(const Op& o, size_t from, size_t n)
{
    std::vector<cd> r(n);
    for (size_t i = 0; i < n; ++i) {
        r[i] = cd(o.p[from + 2 * i], o.p[from + 2 * i + 1]);
    }
    return r;
}
static std::vector<complex> toC(const std::vector<cd>& v)
{
    std::vector<complex> r;
    for (const cd& c : v) {
        r.push_back(C(c));
    }
    return r;
}
static bitLenInt b(long x) { return (bitLenInt)x; }

#define GEN [=](Rng & g, int n, const Prof& pf, Op& o) -> bool
#define RUN [=](Ctx & x, const Op& o) -> bool

typedef std::function<void(QInterface&, bitLenInt)> F1;
typedef std::function<void(QInterface&, bitLenInt, bitLenInt)> F2;
typedef std::function<void(QInterface&, bitLenInt, bitLenInt, bitLenInt)> F3;

static void one(const char* name, int lvl, const M2& m, F1 f)
{
    Reg(name, T_1Q, lvl, 1, GEN { o.q = { g.range(0, n - 1) }; return true; }, RUN {
        f(*x.q, b(o.q[0]));
        x.r.mtrx(m.data(), o.q[0]);
        return true;
    });
}
static void ctl1(const char* name, int lvl, const M2& m, bool anti, F2 f)
{
    Reg(name, T_2Q, lvl, 2, GEN { vi v = g.pick(n, 2); o.q = { v[0], v[1] }; return true; }, RUN {
        f(*x.q, b(o.q[0]), b(o.q[1]));
        x.r.mtrx(vi{ (int)o.q[0] }, anti ? 0 : 1, m.data(), o.q[1]);
        return true;
    });
}
static void ctl2(const char* name, int lvl, const M2& m, bool anti, F3 f)
{
    Reg(name, T_3Q, lvl, 3, GEN { vi v = g.pick(n, 3); o.q = { v[0], v[1], v[2] }; return true; }, RUN {
        f(*x.q, b(o.q[0]), b(o.q[1]), b(o.q[2]));
        x.r.mtrx(vi{ (int)o.q[0], (int)o.q[1] }, anti ? 0 : 3, m.data(), o.q[2]);
        return true;
    });
}
static void rot1(const char* name, std::function<M2(double)> m, std::function<void(QInterface&, real1_f, bitLenInt)> f, unsigned tags = T_1Q)
{
    Reg(name, tags, 0, 1, GEN { o.q = { g.range(0, n - 1) }; o.p = { genAngle(g, pf) }; return true; }, RUN {
        f(*x.q, (real1_f)o.p[0], b(o.q[0]));
        x.r.mtrx(m(o.p[0]).data(), o.q[0]);
        return true;
    });
}
static void pairOp(const char* name, int lvl, std::function<std::vector<cd>()> m, F2 f)
{
    Reg(name, T_2Q, lvl, 2, GEN { vi v = g.pick(n, 2); o.q = { v[0], v[1] }; return true; }, RUN {
        f(*x.q, b(o.q[0]), b(o.q[1]));
        x.r.mtrx4(vi(), 0, m().data(), o.q[0], o.q[1]);
        return true;
    });
}
static std::vector<cd> swapLike(cd d00, cd a, cd off, cd d11)
{
    // basis order |q1 q0> = 00, 01, 10, 11
    return { d00, 0, 0, 0, 0, a, off, 0, 0, off, a, 0, 0, 0, 0, d11 };
}
typedef std::function<void(QInterface&, const std::vector<bitLenInt>&, bitLenInt, bitLenInt)> FCS;
static void cswapLike(const char* name, int lvl, std::vector<cd> m, bool anti, FCS f)
{
    Reg(name, T_MC, lvl, 3, GEN {
        const int k = g.range(1, std::min(pf.maxCtrl, n - 2));
        vi v = g.pick(n, k + 2);
        o.q.assign(v.begin(), v.end());
        return true;
    }, RUN {
        vi c(o.q.begin() + 2, o.q.end());
        f(*x.q, Q(c), b(o.q[0]), b(o.q[1]));
        x.r.mtrx4(c, anti ? 0 : ~(u64)0, m.data(), o.q[0], o.q[1]);
        return true;
    });
}
// layout of multi-controlled operations: q[0] = target, q[1] = control permutation, q[2..] = controls
static bool genMC(Rng& g, int n, const Prof& pf, Op& o, int minC)
{
    const int mx = std::min(pf.level == 0 ? 1 : pf.maxCtrl, n - 1);
    if (mx < minC) {
        return false;
    }
    const int k = g.range(minC, mx);
    vi v = g.pick(n, k + 1);
    o.q = { v[0], (long)g.below((u64)1 << k) };
    for (int i = 0; i < k; ++i) {
        o.q.push_back(v[i + 1]);
    }
    return true;
}
enum Kind { K_M, K_P, K_I, K_U };
typedef std::function<void(QInterface&, const std::vector<bitLenInt>&, const std::vector<complex>&, bitLenInt, const bitCapInt&, const Op&)> FMC;
static void mc(const char* name, int lvl, Kind kind, int mode, FMC f)
{
    // mode 0: anti, 1: controls, 2: permutation
    Reg(name, T_MC, lvl, 2, GEN {
        if (!genMC(g, n, pf, o, 0)) {
            return false;
        }
        if (kind == K_M) {
            genMtrx(g, pf, o.p);
        } else if (kind == K_U) {
            o.p = { genAngle(g, pf), genAngle(g, pf), genAngle(g, pf) };
        } else if (pf.level == 0) {
            // controlled Clifford phases: powers of i with an even number of quarter turns between them
            const int a = g.range(0, 3), d = g.range(0, 1) * 2;
            const cd u = ex(a * M_PI / 2), w = ex((a + d) * M_PI / 2);
            o.p = { u.real(), u.imag(), w.real(), w.imag() };
        } else {
            genPhases(g, pf, o.p);
        }
        return true;
    }, RUN {
        vi c(o.q.begin() + 2, o.q.end());
        M2 m;
        std::vector<complex> a;
        if (kind == K_M) {
            m = cvec(o, 0, 4);
            a = toC(m);
        } else if (kind == K_P || kind == K_I) {
            std::vector<cd> w = cvec(o, 0, 2);
            m = kind == K_P ? mP(w[0], w[1]) : mInv(w[0], w[1]);
            a = toC(w);
        } else {
            m = mU(o.p[0], o.p[1], o.p[2]);
        }
        f(*x.q, Q(c), a, b(o.q[0]), B((u64)o.q[1]), o);
        x.r.mtrx(c, mode == 0 ? 0 : mode == 1 ? ~(u64)0 : (u64)o.q[1], m.data(), o.q[0]);
        return true;
    });
}
static void logic3(const char* name, std::function<bool(bool, bool)> fn, bool sameInOk, F3 f)
{
    Reg(name, T_LOGIC, 1, 3, GEN {
        vi v = g.pick(n, 3);
        if (sameInOk && g.chance(0.15)) {
            v[1] = v[0];
        }
        o.q = { v[0], v[1], v[2] };
        return true;
    }, RUN {
        f(*x.q, b(o.q[0]), b(o.q[1]), b(o.q[2]));
        x.r.permute([&](u64 i) {
            return i ^ ((u64)fn((i >> o.q[0]) & 1, (i >> o.q[1]) & 1) << o.q[2]);
        });
        return true;
    });
}
static void logicCL(const char* name, std::function<bool(bool, bool)> fn, std::function<void(QInterface&, bitLenInt, bool, bitLenInt)> f)
{
    Reg(name, T_LOGIC, 0, 2, GEN { vi v = g.pick(n, 2); o.q = { v[0], (long)g.below(2), v[1] }; return true; }, RUN {
        f(*x.q, b(o.q[0]), (bool)o.q[1], b(o.q[2]));
        x.r.permute([&](u64 i) { return i ^ ((u64)fn((i >> o.q[0]) & 1, o.q[1]) << o.q[2]); });
        return true;
    });
}
typedef std::function<void(QInterface&, const bitCapInt&)> FMask;
static void mask1(const char* name, const M2& m, FMask f)
{
    Reg(name, T_MASK, 0, 1, GEN { o.q = { (long)(1 + g.below(((u64)1 << n) - 1)) }; return true; }, RUN {
        f(*x.q, B((u64)o.q[0]));
        for (int i = 0; i < x.r.n; ++i) {
            if ((o.q[0] >> i) & 1) {
                x.r.mtrx(m.data(), i);
            }
        }
        return true;
    });
}
static void rootN(const char* name, int ctl, bool inv, std::function<void(QInterface&, bitLenInt, bitLenInt, bitLenInt)> f)
{
    // ctl: 0 none, 1 control, 2 anti
    Reg(name, ctl ? T_2Q : T_1Q, ctl ? 1 : 0, ctl ? 2 : 1, GEN {
        const int mx = pf.level == 0 ? 2 : pf.level == 1 ? (ctl ? 2 : 3) : 6;
        vi v = g.pick(n, ctl ? 2 : 1);
        o.q = { g.range(0, mx), v[0], ctl ? v[1] : 0 };
        return true;
    }, RUN {
        f(*x.q, b(o.q[0]), b(o.q[1]), b(o.q[2]));
        // documented: a -2 pi / 2^N phase on |1>
        const double a = o.q[0] ? -2 * M_PI / std::pow(2.0, (double)o.q[0]) : 0;
        const M2 m = mP(1, ex(inv ? -a : a));
        if (ctl) {
            x.r.mtrx(vi{ (int)o.q[1] }, ctl == 1 ? 1 : 0, m.data(), o.q[2]);
        } else {
            x.r.mtrx(m.data(), o.q[1]);
        }
        return true;
    });
}
static void ai(const char* name, int ctl, bool inv, std::function<void(QInterface&, bitLenInt, bitLenInt, real1_f, real1_f)> f)
{
    Reg(name, ctl ? T_2Q : T_1Q, ctl ? 2 : 0, ctl ? 2 : 1, GEN {
        vi v = g.pick(n, ctl ? 2 : 1);
        o.q = { v[0], ctl ? v[1] : 0 };
        o.p = { genAngle(g, pf), genAngle(g, pf) };
        return true;
    }, RUN {
        f(*x.q, b(o.q[0]), b(o.q[1]), (real1_f)o.p[0], (real1_f)o.p[1]);
        M2 m = mAI(o.p[0], o.p[1]);
        if (inv) {
            m = dag(m);
        }
        if (ctl) {
            x.r.mtrx(vi{ (int)o.q[0] }, ctl == 1 ? 1 : 0, m.data(), o.q[1]);
        } else {
            x.r.mtrx(m.data(), o.q[0]);
        }
        return true;
    });
}
void refQFT(Ref& r, const vi& qs, bool inv)
{
    // Qrack's documented convention leaves the bit order reversed ("QFT ... without swaps"): realise it gate by gate,
    // as the textbook circuit, here from its matrix definition: the QFT of an integer whose most significant bit is the
    // last qubit in the list, output bit-reversed.
    const int k = (int)qs.size();
    const u64 d = (u64)1 << k;
    u64 m = 0;
    for (int q : qs) {
        m |= (u64)1 << q;
    }
    auto put = [&](u64 base, u64 val) {
        u64 o = base;
        for (int i = 0; i < k; ++i) {
            if ((val >> i) & 1) {
                o |= (u64)1 << qs[i];
            }
        }
        return o;
    };
    auto rev = [&](u64 val) {
        u64 o = 0;
        for (int i = 0; i < k; ++i) {
            if ((val >> i) & 1) {
                o |= (u64)1 << (k - 1 - i);
            }
        }
        return o;
    };
    const double nrm = 1 / std::sqrt((double)d);
    std::vector<cd> in(d), out(d);
    for (u64 base = 0; base < r.dim(); ++base) {
        if (base & m) {
            continue;
        }
        for (u64 j = 0; j < d; ++j) {
            in[j] = r.v[put(base, j)];
        }
        for (u64 a = 0; a < d; ++a) {
            cd s = 0;
            for (u64 j = 0; j < d; ++j) {
                // forward: |j> -> sum_a w^(j a) |rev(a)>
                if (!inv) {
                    s += ex(-2 * M_PI * (double)((j * rev(a)) % d) / (double)d) * in[j];
                } else {
                    s += ex(2 * M_PI * (double)((a * rev(j)) % d) / (double)d) * in[j];
                }
            }
            out[a] = s * nrm;
        }
        for (u64 a = 0; a < d; ++a) {
            r.v[put(base, a)] = out[a];
        }
    }
}

void registerGates()
{
#define ONE(NAME, LVL, M) one(#NAME, LVL, M, [](QInterface& q, bitLenInt t) { q.NAME(t); });
    ONE(X, 0, mX) ONE(Y, 0, mY) ONE(Z, 0, mZ) ONE(H, 0, mH) ONE(S, 0, mS) ONE(IS, 0, dag(mS)) ONE(T, 1, mT) ONE(IT, 1, dag(mT))
    const M2 mSX = sqrtInv(mX), mSY = sqrtInv(mY);
    ONE(SqrtX, 0, mSX) ONE(ISqrtX, 0, dag(mSX)) ONE(SqrtY, 0, mSY) ONE(ISqrtY, 0, dag(mSY))
    ONE(SqrtH, 2, sqrtInv(mH))
    ONE(SH, 0, mul(mS, mH)) ONE(HIS, 0, mul(mH, dag(mS)))
    // W = (X + Y) / sqrt(2); rotation by a quarter turn around it
    M2 w(4);
    for (int k = 0; k < 4; ++k) {
        w[k] = (mX[k] + mY[k]) * S12;
    }
    (void)w;
    ONE(SqrtW, 1, (M2{ S12, -0.5 - 0.5 * I, 0.5 - 0.5 * I, S12 }))
    ONE(ISqrtW, 1, (M2{ S12, 0.5 + 0.5 * I, -0.5 + 0.5 * I, S12 }))
#define C1(NAME, LVL, M, ANTI) ctl1(#NAME, LVL, M, ANTI, [](QInterface& q, bitLenInt c, bitLenInt t) { q.NAME(c, t); });
    C1(CNOT, 0, mX, false) C1(AntiCNOT, 0, mX, true) C1(CY, 0, mY, false) C1(AntiCY, 0, mY, true) C1(CZ, 0, mZ, false)
    C1(AntiCZ, 0, mZ, true) C1(CH, 2, mH, false) C1(AntiCH, 2, mH, true) C1(CS, 1, mS, false) C1(AntiCS, 1, mS, true)
    C1(CIS, 1, dag(mS), false) C1(AntiCIS, 1, dag(mS), true) C1(CT, 2, mT, false) C1(CIT, 2, dag(mT), false)
#define C2(NAME, M, ANTI) ctl2(#NAME, 1, M, ANTI, [](QInterface& q, bitLenInt c, bitLenInt d, bitLenInt t) { q.NAME(c, d, t); });
    C2(CCNOT, mX, false) C2(AntiCCNOT, mX, true) C2(CCY, mY, false) C2(AntiCCY, mY, true) C2(CCZ, mZ, false) C2(AntiCCZ, mZ, true)
    rot1("RX", [](double a) { return mRot(mX, a); }, [](QInterface& q, real1_f a, bitLenInt t) { q.RX(a, t); });
    rot1("RY", [](double a) { return mRot(mY, a); }, [](QInterface& q, real1_f a, bitLenInt t) { q.RY(a, t); });
    rot1("RZ", [](double a) { return mRot(mZ, a); }, [](QInterface& q, real1_f a, bitLenInt t) { q.RZ(a, t); });
    rot1("RT", [](double a) { return mP(1, ex(a / 2)); }, [](QInterface& q, real1_f a, bitLenInt t) { q.RT(a, t); });
    registry().back().level = 2;
    Reg("U", T_1Q, 0, 1, GEN { o.q = { g.range(0, n - 1) }; o.p = { genAngle(g, pf), genAngle(g, pf), genAngle(g, pf) }; return true; },
        RUN { x.q->U(b(o.q[0]), (real1_f)o.p[0], (real1_f)o.p[1], (real1_f)o.p[2]); x.r.mtrx(mU(o.p[0], o.p[1], o.p[2]).data(), o.q[0]); return true; });
    Reg("U2", T_1Q, 0, 1, GEN { o.q = { g.range(0, n - 1) }; o.p = { genAngle(g, pf), genAngle(g, pf) }; return true; },
        RUN { x.q->U2(b(o.q[0]), (real1_f)o.p[0], (real1_f)o.p[1]); x.r.mtrx(mU(M_PI / 2, o.p[0], o.p[1]).data(), o.q[0]); return true; });
    Reg("IU2", T_1Q, 0, 1, GEN { o.q = { g.range(0, n - 1) }; o.p = { genAngle(g, pf), genAngle(g, pf) }; return true; },
        RUN { x.q->IU2(b(o.q[0]), (real1_f)o.p[0], (real1_f)o.p[1]); x.r.mtrx(dag(mU(M_PI / 2, o.p[0], o.p[1])).data(), o.q[0]); return true; });
    ai("AI", 0, false, [](QInterface& q, bitLenInt t, bitLenInt, real1_f a, real1_f i) { q.AI(t, a, i); });
    ai("IAI", 0, true, [](QInterface& q, bitLenInt t, bitLenInt, real1_f a, real1_f i) { q.IAI(t, a, i); });
    ai("CAI", 1, false, [](QInterface& q, bitLenInt c, bitLenInt t, real1_f a, real1_f i) { q.CAI(c, t, a, i); });
    ai("AntiCAI", 2, false, [](QInterface& q, bitLenInt c, bitLenInt t, real1_f a, real1_f i) { q.AntiCAI(c, t, a, i); });
    ai("CIAI", 1, true, [](QInterface& q, bitLenInt c, bitLenInt t, real1_f a, real1_f i) { q.CIAI(c, t, a, i); });
    ai("AntiCIAI", 2, true, [](QInterface& q, bitLenInt c, bitLenInt t, real1_f a, real1_f i) { q.AntiCIAI(c, t, a, i); });
    Reg("CRZ", T_2Q, 2, 2, GEN { vi v = g.pick(n, 2); o.q = { v[0], v[1] }; o.p = { genAngle(g, pf) }; return true; },
        RUN { x.q->CRZ((real1_f)o.p[0], b(o.q[0]), b(o.q[1])); x.r.mtrx(vi{ (int)o.q[0] }, 1, mRot(mZ, o.p[0]).data(), o.q[1]); return true; });
    Reg("CRY", T_2Q, 2, 2, GEN { vi v = g.pick(n, 2); o.q = { v[0], v[1] }; o.p = { genAngle(g, pf) }; return true; },
        RUN { x.q->CRY((real1_f)o.p[0], b(o.q[0]), b(o.q[1])); x.r.mtrx(vi{ (int)o.q[0] }, 1, mRot(mY, o.p[0]).data(), o.q[1]); return true; });
    Reg("Mtrx", T_1Q, 0, 1, GEN { o.q = { g.range(0, n - 1) }; genMtrx(g, pf, o.p); return true; },
        RUN { M2 m = cvec(o, 0, 4); x.q->Mtrx(toC(m).data(), b(o.q[0])); x.r.mtrx(m.data(), o.q[0]); return true; });
    Reg("Phase", T_1Q, 0, 1, GEN { o.q = { g.range(0, n - 1) }; genPhases(g, pf, o.p); return true; },
        RUN { M2 m = cvec(o, 0, 2); x.q->Phase(C(m[0]), C(m[1]), b(o.q[0])); x.r.mtrx(mP(m[0], m[1]).data(), o.q[0]); return true; });
    Reg("Invert", T_1Q, 0, 1, GEN { o.q = { g.range(0, n - 1) }; genPhases(g, pf, o.p); return true; },
        RUN { M2 m = cvec(o, 0, 2); x.q->Invert(C(m[0]), C(m[1]), b(o.q[0])); x.r.mtrx(mInv(m[0], m[1]).data(), o.q[0]); return true; });
    rootN("PhaseRootN", 0, false, [](QInterface& q, bitLenInt n, bitLenInt t, bitLenInt) { q.PhaseRootN(n, t); });
    rootN("CPhaseRootN", 1, false, [](QInterface& q, bitLenInt n, bitLenInt c, bitLenInt t) { q.CPhaseRootN(n, c, t); });
    rootN("AntiCPhaseRootN", 2, false, [](QInterface& q, bitLenInt n, bitLenInt c, bitLenInt t) { q.AntiCPhaseRootN(n, c, t); });
    rootN("CIPhaseRootN", 1, true, [](QInterface& q, bitLenInt n, bitLenInt c, bitLenInt t) { q.CIPhaseRootN(n, c, t); });
    rootN("AntiCIPhaseRootN", 2, true, [](QInterface& q, bitLenInt n, bitLenInt c, bitLenInt t) { q.AntiCIPhaseRootN(n, c, t); });
    Reg("PhaseRootNMask", T_MASK, 0, 1, GEN { o.q = { g.range(1, pf.level == 0 ? 2 : pf.level == 1 ? 3 : 6), (long)(1 + g.below(((u64)1 << n) - 1)) }; return true; },
        RUN {
            x.q->PhaseRootNMask(b(o.q[0]), B((u64)o.q[1]));
            const cd e = ex(-2 * M_PI / std::pow(2.0, (double)o.q[0]));
            x.r.phase([&](u64 i) { cd f = 1; for (int k = __builtin_popcountll(i & o.q[1]); k > 0; --k) { f *= e; } return f; });
            return true;
        });
    // two-qubit exchange gates
#define PAIR(NAME, LVL, ...) pairOp(#NAME, LVL, [] { return swapLike(__VA_ARGS__); }, [](QInterface& q, bitLenInt a, bitLenInt c) { q.NAME(a, c); });
    PAIR(Swap, 0, 1, 0, 1, 1) PAIR(ISwap, 0, 1, 0, I, 1) PAIR(IISwap, 0, 1, 0, -I, 1)
    PAIR(SqrtSwap, 2, 1, cd(0.5, 0.5), cd(0.5, -0.5), 1) PAIR(ISqrtSwap, 2, 1, cd(0.5, -0.5), cd(0.5, 0.5), 1)
    Reg("SwapSelf", T_2Q, 0, 1, GEN { long t = g.range(0, n - 1); o.q = { t, g.range(0, 2) }; return true; },
        RUN { const bitLenInt t = b(o.q[0]); o.q[1] == 0 ? x.q->Swap(t, t) : o.q[1] == 1 ? x.q->ISwap(t, t) : x.q->SqrtSwap(t, t); return true; });
    Reg("FSim", T_2Q, 2, 2, GEN { vi v = g.pick(n, 2); o.q = { v[0], v[1] }; o.p = { genAngle(g, pf), genAngle(g, pf) }; return true; },
        RUN {
            x.q->FSim((real1_f)o.p[0], (real1_f)o.p[1], b(o.q[0]), b(o.q[1]));
            x.r.mtrx4(vi(), 0, swapLike(1, std::cos(o.p[0]), -I * std::sin(o.p[0]), ex(-o.p[1])).data(), o.q[0], o.q[1]);
            return true;
        });
#define CSW(NAME, ANTI, ...) cswapLike(#NAME, 2, swapLike(__VA_ARGS__), ANTI, [](QInterface& q, const std::vector<bitLenInt>& c, bitLenInt a, bitLenInt d) { q.NAME(c, a, d); });
    CSW(CSwap, false, 1, 0, 1, 1) CSW(AntiCSwap, true, 1, 0, 1, 1)
    registry()[registry().size() - 2].level = registry().back().level = 1;
    CSW(CSqrtSwap, false, 1, cd(0.5, 0.5), cd(0.5, -0.5), 1) CSW(AntiCSqrtSwap, true, 1, cd(0.5, 0.5), cd(0.5, -0.5), 1)
    CSW(CISqrtSwap, false, 1, cd(0.5, -0.5), cd(0.5, 0.5), 1) CSW(AntiCISqrtSwap, true, 1, cd(0.5, -0.5), cd(0.5, 0.5), 1)
    // multiply controlled
    typedef const std::vector<bitLenInt>& VQ;
    typedef const std::vector<complex>& VC;
#define MCARGS QInterface &q, VQ c, VC m, bitLenInt t, const bitCapInt &cp, const Op &o
    mc("MCMtrx", 2, K_M, 1, [](MCARGS) { q.MCMtrx(c, m.data(), t); });
    mc("MACMtrx", 2, K_M, 0, [](MCARGS) { q.MACMtrx(c, m.data(), t); });
    mc("UCMtrx", 2, K_M, 2, [](MCARGS) { q.UCMtrx(c, m.data(), t, cp); });
    mc("MCPhase", 0, K_P, 1, [](MCARGS) { q.MCPhase(c, m[0], m[1], t); });
    mc("MACPhase", 0, K_P, 0, [](MCARGS) { q.MACPhase(c, m[0], m[1], t); });
    mc("UCPhase", 0, K_P, 2, [](MCARGS) { q.UCPhase(c, m[0], m[1], t, cp); });
    mc("MCInvert", 0, K_I, 1, [](MCARGS) { q.MCInvert(c, m[0], m[1], t); });
    mc("MACInvert", 0, K_I, 0, [](MCARGS) { q.MACInvert(c, m[0], m[1], t); });
    mc("UCInvert", 0, K_I, 2, [](MCARGS) { q.UCInvert(c, m[0], m[1], t, cp); });
    mc("CU", 2, K_U, 1, [](MCARGS) { q.CU(c, t, (real1_f)o.p[0], (real1_f)o.p[1], (real1_f)o.p[2]); });
    mc("AntiCU", 2, K_U, 0, [](MCARGS) { q.AntiCU(c, t, (real1_f)o.p[0], (real1_f)o.p[1], (real1_f)o.p[2]); });
    // uniformly controlled
    auto genUC = [](Rng& g, int n, const Prof& pf, Op& o, int per) -> bool {
        const int k = g.range(0, std::min(3, n - 1));
        vi v = g.pick(n, k + 1);
        o.q.assign(v.begin(), v.end());
        for (u64 i = 0; i < ((u64)1 << k); ++i) {
            if (per == 8) {
                genMtrx(g, pf, o.p);
            } else {
                o.p.push_back(genAngle(g, pf));
            }
        }
        return true;
    };
    Reg("UCSB", T_UC, 2, 1, GEN { return genUC(g, n, pf, o, 8); }, RUN {
        vi c(o.q.begin() + 1, o.q.end());
        std::vector<cd> m = cvec(o, 0, (size_t)4 << c.size());
        x.q->UniformlyControlledSingleBit(Q(c), b(o.q[0]), toC(m).data());
        for (u64 k = 0; k < ((u64)1 << c.size()); ++k) {
            x.r.mtrx(c, k, m.data() + 4 * k, o.q[0]);
        }
        return true;
    });
    // with skip powers: 1-3 bit positions of the matrix index are fixed by the value mask. o.q = skip mask, value, target, controls
    Reg("UCSBskip", T_UC, 2, 1, GEN {
        const int k = g.range(0, std::min(3, n - 1));
        const int ns = g.range(1, k >= 3 ? 1 : (k == 2 ? 2 : 3));
        vi v = g.pick(n, k + 1);
        vi sp = g.pick(k + ns, ns);
        long sm = 0;
        for (int i : sp) {
            sm |= 1L << i;
        }
        o.q = { sm, (long)g.below((u64)1 << (k + ns)) & sm };
        o.q.insert(o.q.end(), v.begin(), v.end());
        for (u64 i = 0; i < ((u64)1 << (k + ns)); ++i) {
            genMtrx(g, pf, o.p);
        }
        return true;
    }, RUN {
        vi c(o.q.begin() + 3, o.q.end());
        std::vector<cd> m = cvec(o, 0, o.p.size() / 2);
        const u64 sm = o.q[0], val = o.q[1];
        std::vector<bitCapInt> pw;
        for (int i = 0; i < 16; ++i) {
            if ((sm >> i) & 1) {
                pw.push_back(B((u64)1 << i));
            }
        }
        x.q->UniformlyControlledSingleBit(Q(c), b(o.q[2]), toC(m).data(), pw, B(val));
        for (u64 k = 0; k < ((u64)1 << c.size()); ++k) {
            u64 idx = val, kk = k;
            for (int i = 0; i < 16; ++i) {
                if (!((sm >> i) & 1)) {
                    idx |= (kk & 1) << i;
                    kk >>= 1;
                }
            }
            x.r.mtrx(c, k, m.data() + 4 * idx, o.q[2]);
        }
        return true;
    });
    Reg("UCRY", T_UC, 2, 1, GEN { return genUC(g, n, pf, o, 1); }, RUN {
        vi c(o.q.begin() + 1, o.q.end());
        std::vector<real1> a(o.p.begin(), o.p.end());
        x.q->UniformlyControlledRY(Q(c), b(o.q[0]), a.data());
        for (u64 k = 0; k < o.p.size(); ++k) {
            x.r.mtrx(c, k, mRot(mY, o.p[k]).data(), o.q[0]);
        }
        return true;
    });
    Reg("UCRZ", T_UC, 2, 1, GEN { return genUC(g, n, pf, o, 1); }, RUN {
        vi c(o.q.begin() + 1, o.q.end());
        std::vector<real1> a(o.p.begin(), o.p.end());
        x.q->UniformlyControlledRZ(Q(c), b(o.q[0]), a.data());
        for (u64 k = 0; k < o.p.size(); ++k) {
            x.r.mtrx(c, k, mRot(mZ, o.p[k]).data(), o.q[0]);
        }
        return true;
    });
    // masks
    mask1("XMask", mX, [](QInterface& q, const bitCapInt& m) { q.XMask(m); });
    mask1("YMask", mY, [](QInterface& q, const bitCapInt& m) { q.YMask(m); });
    mask1("ZMask", mZ, [](QInterface& q, const bitCapInt& m) { q.ZMask(m); });
    Reg("PhaseParity", T_MASK, 2, 1, GEN { o.q = { (long)(1 + g.below(((u64)1 << n) - 1)) }; o.p = { genAngle(g, pf) }; return true; }, RUN {
        x.q->PhaseParity((real1_f)o.p[0], B((u64)o.q[0]));
        x.r.phase([&](u64 i) { return ex(Ref::parity(i & o.q[0]) ? o.p[0] / 2 : -o.p[0] / 2); });
        return true;
    });
    Reg("UniformParityRZ", T_PARITY, 2, 1, GEN { o.q = { (long)(1 + g.below(((u64)1 << n) - 1)) }; o.p = { genAngle(g, pf) }; return true; }, RUN {
        auto p = std::dynamic_pointer_cast<QParity>(x.q);
        if (!p) {
            return false;
        }
        p->UniformParityRZ(B((u64)o.q[0]), (real1_f)o.p[0]);
        x.r.phase([&](u64 i) { return ex(Ref::parity(i & o.q[0]) ? o.p[0] : -o.p[0]); });
        return true;
    });
    Reg("CUniformParityRZ", T_PARITY, 2, 2, GEN {
        const int k = g.range(0, std::min(2, n - 1));
        vi v = g.pick(n, k);
        u64 m = 0;
        while (!m) {
            m = g.below((u64)1 << n);
            for (int c : v) {
                m &= ~((u64)1 << c);
            }
        }
        o.q = { (long)m };
        o.q.insert(o.q.end(), v.begin(), v.end());
        o.p = { genAngle(g, pf) };
        return true;
    }, RUN {
        auto p = std::dynamic_pointer_cast<QParity>(x.q);
        if (!p) {
            return false;
        }
        vi c(o.q.begin() + 1, o.q.end());
        u64 cm = 0;
        for (int k : c) {
            cm |= (u64)1 << k;
        }
        p->CUniformParityRZ(Q(c), B((u64)o.q[0]), (real1_f)o.p[0]);
        x.r.phase([&](u64 i) { return (i & cm) != cm ? cd(1) : ex(Ref::parity(i & o.q[0]) ? o.p[0] : -o.p[0]); });
        return true;
    });
    // register-wide gates
    auto genReg = [](Rng& g, int n, Op& o) -> bool {
        const int s = g.range(0, n - 1);
        o.q = { s, g.range(1, n - s) };
        return true;
    };
    Reg("Hreg", T_REG, 0, 1, GEN { return genReg(g, n, o); }, RUN { x.q->H(b(o.q[0]), b(o.q[1])); for (int i = 0; i < o.q[1]; ++i) { x.r.mtrx(mH.data(), o.q[0] + i); } return true; });
    Reg("Xreg", T_REG, 0, 1, GEN { return genReg(g, n, o); }, RUN { x.q->X(b(o.q[0]), b(o.q[1])); for (int i = 0; i < o.q[1]; ++i) { x.r.mtrx(mX.data(), o.q[0] + i); } return true; });
    Reg("QFT", T_REG, 2, 1, GEN { genReg(g, n, o); o.q.push_back(g.chance(0.2)); return true; }, RUN {
        x.q->QFT(b(o.q[0]), b(o.q[1]), (bool)o.q[2]);
        vi qs; for (int i = 0; i < o.q[1]; ++i) { qs.push_back(o.q[0] + i); }
        refQFT(x.r, qs, false);
        return true;
    });
    Reg("IQFT", T_REG, 2, 1, GEN { genReg(g, n, o); o.q.push_back(g.chance(0.2)); return true; }, RUN {
        x.q->IQFT(b(o.q[0]), b(o.q[1]), (bool)o.q[2]);
        vi qs; for (int i = 0; i < o.q[1]; ++i) { qs.push_back(o.q[0] + i); }
        refQFT(x.r, qs, true);
        return true;
    });
    Reg("QFTR", T_REG, 2, 1, GEN { vi v = g.pick(n, g.range(1, n)); o.q.assign(v.begin(), v.end()); return true; }, RUN {
        vi qs(o.q.begin(), o.q.end()); x.q->QFTR(Q(qs)); refQFT(x.r, qs, false); return true;
    });
    Reg("IQFTR", T_REG, 2, 1, GEN { vi v = g.pick(n, g.range(1, n)); o.q.assign(v.begin(), v.end()); return true; }, RUN {
        vi qs(o.q.begin(), o.q.end()); x.q->IQFTR(Q(qs)); refQFT(x.r, qs, true); return true;
    });
    Reg("ZeroPhaseFlip", T_REG, 2, 1, GEN { return genReg(g, n, o); }, RUN {
        x.q->ZeroPhaseFlip(b(o.q[0]), b(o.q[1]));
        const u64 m = (((u64)1 << o.q[1]) - 1) << o.q[0];
        x.r.phase([&](u64 i) { return (i & m) ? cd(1) : cd(-1); });
        return true;
    });
    Reg("PhaseFlip", T_REG, 0, 1, GEN { return true; }, RUN { x.q->PhaseFlip(); x.r.phase([&](u64) { return cd(-1); }); return true; });
    auto rotl = [](u64 v, int s, int len) -> u64 { return s ? (((v << s) | (v >> (len - s))) & (((u64)1 << len) - 1)) : v; };
    auto onReg = [](Ref& r, int s, int len, std::function<u64(u64)> f) {
        const u64 m = (((u64)1 << len) - 1) << s;
        r.permute([&](u64 i) { return (i & ~m) | (f((i & m) >> s) << s); });
    };
    Reg("ROL", T_REG, 0, 1, GEN { genReg(g, n, o); o.q.push_back(g.range(0, (int)o.q[1] + 2)); return true; }, RUN {
        x.q->ROL(b(o.q[2]), b(o.q[0]), b(o.q[1]));
        onReg(x.r, o.q[0], o.q[1], [&](u64 v) { return rotl(v, o.q[2] % o.q[1], o.q[1]); });
        return true;
    });
    Reg("ROR", T_REG, 0, 1, GEN { genReg(g, n, o); o.q.push_back(g.range(0, (int)o.q[1] + 2)); return true; }, RUN {
        x.q->ROR(b(o.q[2]), b(o.q[0]), b(o.q[1]));
        onReg(x.r, o.q[0], o.q[1], [&](u64 v) { return rotl(v, (o.q[1] - o.q[2] % o.q[1]) % o.q[1], o.q[1]); });
        return true;
    });
    Reg("Reverse", T_REG, 0, 1, GEN { return genReg(g, n, o); }, RUN {
        x.q->Reverse(b(o.q[0]), b(o.q[0] + o.q[1]));
        onReg(x.r, o.q[0], o.q[1], [&](u64 v) { u64 w = 0; for (int i = 0; i < o.q[1]; ++i) { if ((v >> i) & 1) { w |= (u64)1 << (o.q[1] - 1 - i); } } return w; });
        return true;
    });
    // logic
#define L3(NAME, EXPR) logic3(#NAME, [](bool a, bool c) { return EXPR; }, true, [](QInterface& q, bitLenInt a, bitLenInt c, bitLenInt t) { q.NAME(a, c, t); });
    L3(AND, a && c) L3(OR, a || c) L3(XOR, a != c) L3(NAND, !(a && c)) L3(NOR, !(a || c)) L3(XNOR, a == c)
#define LC(NAME, EXPR) logicCL(#NAME, [](bool a, bool c) { return EXPR; }, [](QInterface& q, bitLenInt a, bool c, bitLenInt t) { q.NAME(a, c, t); });
    LC(CLAND, a && c) LC(CLOR, a || c) LC(CLXOR, a != c) LC(CLNAND, !(a && c)) LC(CLNOR, !(a || c)) LC(CLXNOR, a == c)
    // time evolution under a Hermitian operator: exp(-i H t)
    Reg("TimeEvolve", T_HAM, 2, 1, GEN {
        const int nops = g.range(1, 2);
        o.q = { nops };
        o.p = { g.uni(0.2, 1.5) * (g.chance(0.5) ? 1 : -1) };
        for (int i = 0; i < nops; ++i) {
            const int k = g.range(0, std::min(2, n - 1));
            vi v = g.pick(n, k + 1);
            // kind: 0 controlled, 1 anti, 2 uniform; toggles
            const int kind = k ? g.range(0, 2) : 0;
            o.q.push_back(kind);
            o.q.push_back(k ? (long)g.below((u64)1 << k) * g.range(0, 1) : 0);
            o.q.push_back(k);
            for (int z : v) {
                o.q.push_back(z);
            }
            const int nm = kind == 2 ? 1 << k : 1;
            for (int j = 0; j < nm; ++j) {
                // Hermitian a + b.sigma
                double bx = g.uni(-1, 1), by = g.uni(-1, 1), bz = g.uni(-1, 1);
                if (g.chance(0.2)) {
                    bx = by = 0;
                } else if (g.chance(0.2)) {
                    bx *= 0.01;
                    by *= 0.01;
                }
                const double l = std::sqrt(bx * bx + by * by + bz * bz) + 1e-9, s = (g.chance(0.7) ? g.uni(0.4, 1.2) : std::pow(10.0, g.uni(-4, 1))) / l;
                o.p.push_back(g.uni(-1, 1));
                o.p.push_back(bx * s);
                o.p.push_back(by * s);
                o.p.push_back(bz * s);
            }
        }
        return true;
    }, RUN {
        Hamiltonian h;
        size_t qi = 1, pi = 1;
        const double t = o.p[0];
        for (int i = 0; i < o.q[0]; ++i) {
            const int kind = o.q[qi], tog = o.q[qi + 1], k = o.q[qi + 2];
            const int target = o.q[qi + 3];
            vi c(o.q.begin() + qi + 4, o.q.begin() + qi + 4 + k);
            qi += 4 + k;
            const int nm = kind == 2 ? 1 << k : 1;
            BitOp m(new complex[4 * nm], std::default_delete<complex[]>());
            std::vector<M2> ev;
            for (int j = 0; j < nm; ++j, pi += 4) {
                const double a = o.p[pi], bx = o.p[pi + 1], by = o.p[pi + 2], bz = o.p[pi + 3];
                m.get()[4 * j + 0] = C(cd(a + bz, 0));
                m.get()[4 * j + 1] = C(cd(bx, -by));
                m.get()[4 * j + 2] = C(cd(bx, by));
                m.get()[4 * j + 3] = C(cd(a - bz, 0));
                const double l = std::sqrt(bx * bx + by * by + bz * bz);
                M2 e(4);
                for (int z = 0; z < 4; ++z) {
                    const cd ns = (bx * mX[z] + by * mY[z] + bz * mZ[z]) / l;
                    e[z] = ex(-a * t) * (std::cos(l * t) * mI[z] - I * std::sin(l * t) * ns);
                }
                ev.push_back(e);
            }
            HamiltonianOpPtr op;
            u64 togMask = 0;
            if (kind == 2) {
                op = std::make_shared<UniformHamiltonianOp>(Q(c), b(target), m);
            } else if (!k) {
                op = std::make_shared<HamiltonianOp>(b(target), m);
            } else if (tog) {
                std::vector<bool> tg;
                for (int z = 0; z < k; ++z) {
                    tg.push_back((tog >> z) & 1);
                }
                togMask = tog;
                op = std::make_shared<HamiltonianOp>(Q(c), b(target), m, kind == 1, tg);
            } else {
                op = std::make_shared<HamiltonianOp>(Q(c), b(target), m, kind == 1);
            }
            h.push_back(op);
            if (kind == 2) {
                for (int z = 0; z < nm; ++z) {
                    x.r.mtrx(c, z, ev[z].data(), target);
                }
            } else {
                const u64 all = ((u64)1 << k) - 1;
                x.r.mtrx(c, (kind == 1 ? 0 : all) ^ togMask, ev[0].data(), target);
            }
        }
        x.q->TimeEvolve(h, (real1_f)t);
        return true;
    });
}
} // namespace vf
