// Arithmetic, comparison and lookup operations: each is a classical reversible function (or a classical function after an
// explicit measurement of its carry), so the model is a permutation of basis states.
#include "ops.hpp"
namespace vf {
#define GEN [=](Rng & g, int n, const Prof& pf, Op& o) -> bool
#define RUN [=](Ctx & x, const Op& o) -> bool
static bitLenInt b(long x) { return (bitLenInt)x; }
static u64 msk(int len) { return len >= 64 ? ~(u64)0 : (((u64)1 << len) - 1); }
static u64 getR(u64 i, int s, int len) { return (i >> s) & msk(len); }
static u64 putR(u64 i, int s, int len, u64 v) { return (i & ~(msk(len) << s)) | ((v & msk(len)) << s); }

// measure qubits of a register on the simulator and collapse the model accordingly, then reset to |0>
static bool measureBoth(Ctx& x, int t, bool& out)
{
    out = x.q->M(b(t));
    const double p = x.r.prob(t);
    if (!possible(x, out ? p : 1 - p, "measured qubit " + std::to_string(t) + " as " + std::to_string(out))) {
        return false;
    }
    x.r.project((u64)1 << t, out ? (u64)1 << t : 0);
    return true;
}
static bool clearReg(Ctx& x, int s, int len)
{
    for (int i = 0; i < len; ++i) {
        bool v;
        if (!measureBoth(x, s + i, v)) {
            return false;
        }
        if (v) {
            x.q->X(b(s + i));
            x.r.permute([&](u64 k) { return k ^ ((u64)1 << (s + i)); });
        }
    }
    return true;
}
// two disjoint contiguous registers with the same length, plus the remaining free qubits
static bool twoRegs(Rng& g, int n, int lenA, int lenB, int& a, int& c, vi& rest)
{
    if (lenA + lenB > n) {
        return false;
    }
    const int slack = n - lenA - lenB;
    const int g0 = g.range(0, slack), g1 = g.range(0, slack - g0);
    if (g.chance(0.5)) {
        a = g0;
        c = g0 + lenA + g1;
    } else {
        c = g0;
        a = g0 + lenB + g1;
    }
    rest.clear();
    for (int i = 0; i < n; ++i) {
        if (!((i >= a && i < a + lenA) || (i >= c && i < c + lenB))) {
            rest.push_back(i);
        }
    }
    return true;
}
static vi outside(Rng& g, int n, int s, int len, int k)
{
    vi r;
    for (int i = 0; i < n; ++i) {
        if (i < s || i >= s + len) {
            r.push_back(i);
        }
    }
    vi ix = g.pick((int)r.size(), std::min(k, (int)r.size())), o;
    for (int i : ix) {
        o.push_back(r[i]);
    }
    return o;
}
static long genVal(Rng& g, int len)
{
    const double c = g.unit();
    if (c < 0.12) {
        return 0;
    }
    if (c < 0.24) {
        return (long)msk(len);
    }
    if (c < 0.36) {
        return (long)((u64)1 << g.below(len));
    }
    return (long)g.below((u64)1 << len);
}
static u64 powmod(u64 base, u64 e, u64 m)
{
    u64 r = 1 % m;
    for (u64 i = 0; i < e; ++i) {
        r = (r * (base % m)) % m;
    }
    return r;
}
static u64 cmask(const vi& c)
{
    u64 m = 0;
    for (int k : c) {
        m |= (u64)1 << k;
    }
    return m;
}
static std::shared_ptr<QAlu> alu(Ctx& x) { return std::dynamic_pointer_cast<QAlu>(x.q); }

void registerAlu()
{
    // ---- every simulator
    auto gInc = [](Rng& g, int n, Op& o) {
        const int s = g.range(0, n - 1), len = g.range(1, n - s);
        o.q = { genVal(g, len), s, len };
        return true;
    };
    for (int sub = 0; sub < 2; ++sub) {
        Reg(sub ? "DEC" : "INC", T_ARITH, 1, 1, GEN { return gInc(g, n, o); }, RUN {
            sub ? x.q->DEC(B(o.q[0]), b(o.q[1]), b(o.q[2])) : x.q->INC(B(o.q[0]), b(o.q[1]), b(o.q[2]));
            x.r.permute([&](u64 i) { return putR(i, o.q[1], o.q[2], getR(i, o.q[1], o.q[2]) + (sub ? -(u64)o.q[0] : (u64)o.q[0])); });
            return true;
        });
        Reg(sub ? "CDEC" : "CINC", T_ARITH, 2, 2, GEN {
            gInc(g, n, o);
            vi c = outside(g, n, o.q[1], o.q[2], g.range(0, 2));
            o.q.insert(o.q.end(), c.begin(), c.end());
            return true;
        }, RUN {
            vi c(o.q.begin() + 3, o.q.end());
            const u64 cm = cmask(c);
            sub ? x.q->CDEC(B(o.q[0]), b(o.q[1]), b(o.q[2]), Q(c)) : x.q->CINC(B(o.q[0]), b(o.q[1]), b(o.q[2]), Q(c));
            x.r.permute([&](u64 i) { return (i & cm) != cm ? i : putR(i, o.q[1], o.q[2], getR(i, o.q[1], o.q[2]) + (sub ? -(u64)o.q[0] : (u64)o.q[0])); });
            return true;
        });
        // with carry: the carry is measured first
        Reg(sub ? "DECC" : "INCC", T_ARITH, 2, 2, GEN {
            const int s0 = g.range(0, n - 2);
            const int len = g.range(1, n - 1 - s0);
            const int s = s0 + g.range(0, 1);
            vi c = outside(g, n, s, len, 1);
            o.q = { genVal(g, len), s, len, c[0] };
            return true;
        }, RUN {
            bool cin;
            if (!measureBoth(x, o.q[3], cin)) {
                return true;
            }
            const int s = o.q[1], len = o.q[2];
            sub ? x.q->DECC(B(o.q[0]), b(s), b(len), b(o.q[3])) : x.q->INCC(B(o.q[0]), b(s), b(len), b(o.q[3]));
            x.r.permute([&](u64 i) {
                const u64 v = getR(i, s, len);
                const u64 w = sub ? v + (msk(len) + 1) - (u64)o.q[0] - (cin ? 0 : 1) : v + (u64)o.q[0] + (cin ? 1 : 0);
                return putR(putR(i, s, len, w), o.q[3], 1, (w >> len) & 1);
            });
            return true;
        });
    }
    Reg("INCDECC", T_ARITH, 2, 2, GEN {
        const int s0 = g.range(0, n - 2);
        const int len = g.range(1, n - 1 - s0);
        const int s = s0 + g.range(0, 1);
        vi c = outside(g, n, s, len, 1);
        o.q = { genVal(g, len), s, len, c[0] };
        return true;
    }, RUN {
        const int s = o.q[1], len = o.q[2];
        if (!clearReg(x, o.q[3], 1)) {
            return true;
        }
        x.q->INCDECC(B(o.q[0]), b(s), b(len), b(o.q[3]));
        x.r.permute([&](u64 i) {
            const u64 w = getR(i, s, len) + (u64)o.q[0];
            return putR(putR(i, s, len, w), o.q[3], 1, (w >> len) & 1);
        });
        return true;
    });
    for (int inv = 0; inv < 2; ++inv) {
        for (int ctl = 0; ctl < 2; ++ctl) {
            const char* nm = ctl ? (inv ? "CIFullAdd" : "CFullAdd") : (inv ? "IFullAdd" : "FullAdd");
            Reg(nm, T_ARITH, 2, 4 + ctl, GEN {
                const int k = ctl ? g.range(1, std::min(2, n - 4)) : 0;
                vi v = g.pick(n, 4 + k);
                o.q.assign(v.begin(), v.end());
                return true;
            }, RUN {
                vi c(o.q.begin() + 4, o.q.end());
                const u64 cm = cmask(c);
                const bitLenInt a = b(o.q[0]), d = b(o.q[1]), ci = b(o.q[2]), co = b(o.q[3]);
                // a full adder needs its sum output empty
                if (!inv && !clearReg(x, co, 1)) {
                    return true;
                }
                auto fwd = [&](u64 i) -> u64 {
                    if ((i & cm) != cm) {
                        return i;
                    }
                    const int A = (i >> a) & 1, D = (i >> d) & 1, Ci = (i >> ci) & 1, Co = (i >> co) & 1;
                    const int s = A + D + Ci;
                    u64 r = putR(i, ci, 1, s & 1);
                    return putR(r, co, 1, Co ^ (s >> 1));
                };
                if (inv) {
                    ctl ? x.q->CIFullAdd(Q(c), a, d, ci, co) : x.q->IFullAdd(a, d, ci, co);
                    // invert the permutation
                    std::vector<u64> iv(x.r.dim());
                    for (u64 i = 0; i < x.r.dim(); ++i) {
                        iv[fwd(i)] = i;
                    }
                    x.r.permute([&](u64 i) { return iv[i]; });
                } else {
                    ctl ? x.q->CFullAdd(Q(c), a, d, ci, co) : x.q->FullAdd(a, d, ci, co);
                    x.r.permute(fwd);
                }
                return true;
            });
        }
    }
    // ADC: output (empty) = input1 + input2 + carry; carry = carry out. IADC undoes it.
    for (int ctl = 0; ctl < 2; ++ctl) {
        Reg(ctl ? "CADC" : "ADC", T_ARITH, 2, 4 + ctl, GEN {
            const int len = g.range(1, std::min(3, (n - 1 - ctl) / 3));
            if (3 * len + 1 + ctl > n) {
                return false;
            }
            // three registers of len and a carry, shuffled blocks
            vi order = g.pick(3, 3);
            const int gap = g.range(0, n - 3 * len - 1 - ctl);
            const bool cfirst = g.chance(0.5);
            int base = gap + (cfirst ? 1 : 0);
            int st[3];
            for (int k = 0; k < 3; ++k) {
                st[order[k]] = base + k * len;
            }
            const int carry = cfirst ? gap : base + 3 * len;
            o.q = { st[0], st[1], st[2], len, carry, g.range(0, 1) };
            if (ctl) {
                vi used;
                for (int i = 0; i < n; ++i) {
                    if (i == carry || (i >= base && i < base + 3 * len)) {
                        continue;
                    }
                    used.push_back(i);
                }
                if (used.empty()) {
                    return false;
                }
                o.q.push_back(used[g.below(used.size())]);
            }
            return true;
        }, RUN {
            const int i1 = o.q[0], i2 = o.q[1], out = o.q[2], len = o.q[3], cy = o.q[4];
            vi c(o.q.begin() + 6, o.q.end());
            const u64 cm = cmask(c);
            if (!clearReg(x, out, len)) {
                return true;
            }
            Ref before = x.r;
            ctl ? x.q->CADC(Q(c), b(i1), b(i2), b(out), b(len), b(cy)) : x.q->ADC(b(i1), b(i2), b(out), b(len), b(cy));
            x.r.permute([&](u64 i) {
                if ((i & cm) != cm) {
                    return i;
                }
                const u64 s = getR(i, i1, len) + getR(i, i2, len) + ((i >> cy) & 1);
                return putR(putR(i, out, len, s), cy, 1, (s >> len) & 1);
            });
            if (o.q[5]) {
                // and back
                ctl ? x.q->CIADC(Q(c), b(i1), b(i2), b(out), b(len), b(cy)) : x.q->IADC(b(i1), b(i2), b(out), b(len), b(cy));
                x.r = before;
            }
            return true;
        });
    }
    // modular multiplication out of place; the base-class versions add to the output register, so it is emptied first
    auto gMod = [](Rng& g, int n, int extra, Op& o, vi& rest) -> bool {
        const int len = g.range(1, std::min(4, (n - extra) / 2));
        int a, c;
        if (!twoRegs(g, n, len, len, a, c, rest)) {
            return false;
        }
        long N = 1 + (long)g.below((u64)1 << len);
        if (g.chance(0.3)) {
            N = (long)1 << len;
        }
        if (N < 2) {
            N = 2;
        }
        o.q = { (long)g.below((u64)1 << len), N, a, c, len };
        return true;
    };
    for (int ctl = 0; ctl < 2; ++ctl) {
        Reg(ctl ? "CMULModNOut" : "MULModNOut", T_ARITH, 2, 2 + ctl, GEN {
            vi rest;
            if (!gMod(g, n, ctl, o, rest)) {
                return false;
            }
            o.q.push_back(g.range(0, 2)); // 1: also undo; 2: classical input
            if (ctl) {
                vi ix = g.pick((int)rest.size(), std::min((int)rest.size(), g.range(1, 2)));
                for (int i : ix) {
                    o.q.push_back(rest[i]);
                }
            }
            return true;
        }, RUN {
            const u64 m = o.q[0], N = o.q[1];
            const int in = o.q[2], out = o.q[3], len = o.q[4];
            vi c(o.q.begin() + 6, o.q.end());
            const u64 cm = cmask(c);
            if (o.q[5] == 2 && !clearReg(x, in, len)) {
                return true;
            }
            if (!clearReg(x, out, len)) {
                return true;
            }
            Ref before = x.r;
            ctl ? x.q->CMULModNOut(B(m), B(N), b(in), b(out), b(len), Q(c)) : x.q->MULModNOut(B(m), B(N), b(in), b(out), b(len));
            x.r.permute([&](u64 i) { return (i & cm) != cm ? i : putR(i, out, len, (getR(i, in, len) * m) % N); });
            if (o.q[5] == 1) {
                ctl ? x.q->CIMULModNOut(B(m), B(N), b(in), b(out), b(len), Q(c)) : x.q->IMULModNOut(B(m), B(N), b(in), b(out), b(len));
                x.r = before;
            }
            return true;
        });
        Reg(ctl ? "CPOWModNOut" : "POWModNOut", T_ALU, 2, 2 + ctl, GEN {
            vi rest;
            if (!gMod(g, n, ctl, o, rest)) {
                return false;
            }
            o.q[0] = std::max(1L, o.q[0]);
            if (ctl) {
                vi ix = g.pick((int)rest.size(), std::min((int)rest.size(), g.range(1, 2)));
                for (int i : ix) {
                    o.q.push_back(rest[i]);
                }
            }
            return true;
        }, RUN {
            auto a = alu(x);
            if (!a) {
                return false;
            }
            const u64 m = o.q[0], N = o.q[1];
            const int in = o.q[2], out = o.q[3], len = o.q[4];
            vi c(o.q.begin() + 5, o.q.end());
            const u64 cm = cmask(c);
            if (!clearReg(x, out, len)) {
                return true;
            }
            ctl ? a->CPOWModNOut(B(m), B(N), b(in), b(out), b(len), Q(c)) : a->POWModNOut(B(m), B(N), b(in), b(out), b(len));
            x.r.permute([&](u64 i) { return (i & cm) != cm ? i : putR(i, out, len, powmod(m, getR(i, in, len), N)); });
            return true;
        });
        // MUL: carry register emptied by the operation; DIV undoes it
        Reg(ctl ? "CMUL" : "MUL", T_ALU, 2, 2 + ctl, GEN {
            const int len = g.range(1, std::min(4, (n - ctl) / 2));
            int a, c;
            vi rest;
            if (!twoRegs(g, n, len, len, a, c, rest)) {
                return false;
            }
            long m = 1 + (long)g.below(msk(len));
            if (!ctl && g.chance(0.1)) {
                m = 0;
            }
            o.q = { m, a, c, len, m ? g.range(0, 1) : 0 };
            if (ctl) {
                vi ix = g.pick((int)rest.size(), std::min((int)rest.size(), g.range(1, 2)));
                for (int i : ix) {
                    o.q.push_back(rest[i]);
                }
            }
            return true;
        }, RUN {
            auto a = alu(x);
            if (!a) {
                return false;
            }
            const u64 m = o.q[0];
            const int io = o.q[1], cy = o.q[2], len = o.q[3];
            vi c(o.q.begin() + 5, o.q.end());
            const u64 cm = cmask(c);
            if (!clearReg(x, cy, len)) {
                return true;
            }
            if (!m && !clearReg(x, io, len)) {
                return true;
            }
            Ref before = x.r;
            ctl ? a->CMUL(B(m), b(io), b(cy), b(len), Q(c)) : a->MUL(B(m), b(io), b(cy), b(len));
            x.r.permute([&](u64 i) {
                if ((i & cm) != cm) {
                    return i;
                }
                const u64 p = getR(i, io, len) * m;
                return putR(putR(i, io, len, p), cy, len, p >> len);
            });
            if (o.q[4]) {
                ctl ? a->CDIV(B(m), b(io), b(cy), b(len), Q(c)) : a->DIV(B(m), b(io), b(cy), b(len));
                x.r = before;
            }
            return true;
        });
    }
    // signed addition: phase flip when the overflow flag qubit is set and the signed sum overflows
    auto ovf = [](u64 v, u64 a, int len) -> bool {
        auto sg = [&](u64 z) -> long { return (z >> (len - 1)) & 1 ? (long)z - ((long)1 << len) : (long)z; };
        const long s = sg(v) + sg(a & msk(len));
        return s >= ((long)1 << (len - 1)) || s < -((long)1 << (len - 1));
    };
    for (int sub = 0; sub < 2; ++sub) {
        Reg(sub ? "DECS" : "INCS", T_ALU, 2, 2, GEN {
            const int len = g.range(1, n - 1);
            const int s = g.range(0, n - 1 - len);
            vi c = outside(g, n, s, len, 1);
            o.q = { genVal(g, len), s, len, c[0] };
            return true;
        }, RUN {
            auto a = alu(x);
            if (!a) {
                return false;
            }
            const int s = o.q[1], len = o.q[2], of = o.q[3];
            sub ? a->DECS(B(o.q[0]), b(s), b(len), b(of)) : a->INCS(B(o.q[0]), b(s), b(len), b(of));
            const u64 add = (sub ? -(u64)o.q[0] : (u64)o.q[0]) & msk(len);
            x.r.phase([&](u64 i) { return ((i >> of) & 1) && ovf(getR(i, s, len), add, len) ? cd(-1) : cd(1); });
            x.r.permute([&](u64 i) { return putR(i, s, len, getR(i, s, len) + add); });
            return true;
        });
        for (int flag = 0; flag < 2; ++flag) {
            Reg(sub ? (flag ? "DECSCo" : "DECSC") : (flag ? "INCSCo" : "INCSC"), T_ALU, 2, 2 + flag, GEN {
                const int len = g.range(1, n - 1 - flag);
                const int s = g.range(0, n - 1 - flag - len);
                vi c = outside(g, n, s, len, 1 + flag);
                long v = genVal(g, len);
                o.q = { v, s, len, c[0] };
                if (flag) {
                    o.q.push_back(c[1]);
                }
                return true;
            }, RUN {
                auto a = alu(x);
                if (!a) {
                    return false;
                }
                const int s = o.q[1], len = o.q[2], cy = o.q[3];
                bool cin;
                if (!measureBoth(x, cy, cin)) {
                    return true;
                }
                if (flag) {
                    sub ? a->DECSC(B(o.q[0]), b(s), b(len), b(o.q[4]), b(cy)) : a->INCSC(B(o.q[0]), b(s), b(len), b(o.q[4]), b(cy));
                } else {
                    sub ? a->DECSC(B(o.q[0]), b(s), b(len), b(cy)) : a->INCSC(B(o.q[0]), b(s), b(len), b(cy));
                }
                const u64 add = sub ? (msk(len) + 1) - (u64)o.q[0] - (cin ? 0 : 1) : (u64)o.q[0] + (cin ? 1 : 0);
                x.r.phase([&](u64 i) { return (!flag || ((i >> o.q[4]) & 1)) && ovf(getR(i, s, len), add, len) ? cd(-1) : cd(1); });
                x.r.permute([&](u64 i) {
                    const u64 w = getR(i, s, len) + add;
                    return putR(putR(i, s, len, w), cy, 1, (w >> len) & 1);
                });
                return true;
            });
        }
    }
    Reg("PhaseFlipIfLess", T_ALU, 2, 1, GEN {
        const int s = g.range(0, n - 1), len = g.range(1, n - s);
        o.q = { (long)g.below(((u64)1 << len) + 1), s, len };
        return true;
    }, RUN {
        auto a = alu(x);
        if (!a) {
            return false;
        }
        a->PhaseFlipIfLess(B(o.q[0]), b(o.q[1]), b(o.q[2]));
        x.r.phase([&](u64 i) { return getR(i, o.q[1], o.q[2]) < (u64)o.q[0] ? cd(-1) : cd(1); });
        return true;
    });
    Reg("CPhaseFlipIfLess", T_ALU, 2, 2, GEN {
        const int len = g.range(1, n - 1);
        const int s = g.range(0, n - 1 - len);
        vi c = outside(g, n, s, len, 1);
        o.q = { (long)g.below(((u64)1 << len) + 1), s, len, c[0] };
        return true;
    }, RUN {
        auto a = alu(x);
        if (!a) {
            return false;
        }
        a->CPhaseFlipIfLess(B(o.q[0]), b(o.q[1]), b(o.q[2]), b(o.q[3]));
        x.r.phase([&](u64 i) { return ((i >> o.q[3]) & 1) && getR(i, o.q[1], o.q[2]) < (u64)o.q[0] ? cd(-1) : cd(1); });
        return true;
    });
    // lookup
    auto bytes = [](const std::vector<u64>& t, int len) {
        const int nb = (len + 7) / 8;
        std::vector<unsigned char> r;
        for (u64 v : t) {
            for (int k = 0; k < nb; ++k) {
                r.push_back((v >> (8 * k)) & 255);
            }
        }
        return r;
    };
    for (int kind = 0; kind < 3; ++kind) {
        Reg(kind == 0 ? "IndexedLDA" : kind == 1 ? "IndexedADC" : "IndexedSBC", T_ALU, 2, kind ? 3 : 2, GEN {
            const int il = g.range(1, std::min(3, n - 1 - (kind ? 1 : 0)));
            const int vl = g.range(1, std::min(10, n - il - (kind ? 1 : 0)));
            int a, c;
            vi rest;
            if (!twoRegs(g, n, il, vl, a, c, rest)) {
                return false;
            }
            o.q = { a, il, c, vl, kind ? rest[g.below(rest.size())] : (long)g.range(0, 1), (long)g.below(1 << 30) };
            return true;
        }, RUN {
            auto al = alu(x);
            if (!al) {
                return false;
            }
            const int is = o.q[0], il = o.q[1], vs = o.q[2], vl = o.q[3];
            Rng tg(o.q[5]);
            std::vector<u64> t;
            for (u64 i = 0; i < ((u64)1 << il); ++i) {
                t.push_back(tg.below((u64)1 << vl));
            }
            std::vector<unsigned char> by = bytes(t, vl);
            if (kind == 0) {
                // resetValue=false needs an already empty value register
                if (!clearReg(x, vs, vl)) {
                    return true;
                }
                if (o.q[4]) {
                    x.q->X(b(vs));
                }
                al->IndexedLDA(b(is), b(il), b(vs), b(vl), by.data(), (bool)o.q[4]);
                x.r.permute([&](u64 i) { return putR(i, vs, vl, t[getR(i, is, il)]); });
                return true;
            }
            const int cy = o.q[4];
            bool cin;
            if (!measureBoth(x, cy, cin)) {
                return true;
            }
            kind == 1 ? al->IndexedADC(b(is), b(il), b(vs), b(vl), b(cy), by.data()) : al->IndexedSBC(b(is), b(il), b(vs), b(vl), b(cy), by.data());
            x.r.permute([&](u64 i) {
                const u64 v = getR(i, vs, vl), e = t[getR(i, is, il)];
                const u64 w = kind == 1 ? v + e + (cin ? 1 : 0) : v + msk(vl) + 1 - e - (cin ? 0 : 1);
                return putR(putR(i, vs, vl, w), cy, 1, (w >> vl) & 1);
            });
            return true;
        });
    }
    Reg("Hash", T_ALU, 2, 1, GEN {
        const int s = g.range(0, n - 1), len = g.range(1, n - s);
        o.q = { s, len, (long)g.below(1 << 30) };
        return true;
    }, RUN {
        auto al = alu(x);
        if (!al) {
            return false;
        }
        const int s = o.q[0], len = o.q[1];
        Rng tg(o.q[2]);
        vi p = tg.pick(1 << len, 1 << len);
        std::vector<u64> t(p.begin(), p.end());
        std::vector<unsigned char> by = bytes(t, len);
        al->Hash(b(s), b(len), by.data());
        x.r.permute([&](u64 i) { return putR(i, s, len, t[getR(i, s, len)]); });
        return true;
    });
}
} // namespace vf
