// P22: every wide-integer operation against schoolbook arithmetic on vectors of 32-bit limbs.
#include "harness.hpp"
#include <cstring>
#include <sstream>
namespace vf {
namespace {
const int BITS = (int)(8 * sizeof(bitCapInt));
const int L = BITS / 32;
typedef std::vector<uint32_t> Limbs; // little endian, L limbs
Limbs zero() { return Limbs(L, 0); }
bitCapInt toB(const Limbs& a)
{
    bitCapInt r;
    memcpy((void*)&r, a.data(), sizeof r); // little-endian words, as the library stores them
    return r;
}
Limbs fromB(const bitCapInt& b)
{
    Limbs r(L);
    memcpy(r.data(), (const void*)&b, sizeof b);
    return r;
}
Limbs add(const Limbs& a, const Limbs& b)
{
    Limbs r(L);
    u64 c = 0;
    for (int i = 0; i < L; ++i) {
        c += (u64)a[i] + b[i];
        r[i] = (uint32_t)c;
        c >>= 32;
    }
    return r;
}
Limbs inv(const Limbs& a)
{
    Limbs r(L);
    for (int i = 0; i < L; ++i) {
        r[i] = ~a[i];
    }
    return r;
}
Limbs small(u64 v)
{
    Limbs r = zero();
    r[0] = (uint32_t)v;
    r[1] = (uint32_t)(v >> 32);
    return r;
}
Limbs sub(const Limbs& a, const Limbs& b) { return add(add(a, inv(b)), small(1)); }
Limbs mul(const Limbs& a, const Limbs& b)
{
    Limbs r = zero();
    for (int i = 0; i < L; ++i) {
        u64 c = 0;
        for (int j = 0; i + j < L; ++j) {
            c += (u64)a[i] * b[j] + r[i + j];
            r[i + j] = (uint32_t)c;
            c >>= 32;
        }
    }
    return r;
}
bool bit(const Limbs& a, int i) { return (a[i >> 5] >> (i & 31)) & 1; }
Limbs shl(const Limbs& a, int s)
{
    Limbs r = zero();
    for (int i = s; i < BITS; ++i) {
        if (bit(a, i - s)) {
            r[i >> 5] |= 1U << (i & 31);
        }
    }
    return r;
}
Limbs shr(const Limbs& a, int s)
{
    Limbs r = zero();
    for (int i = 0; i + s < BITS; ++i) {
        if (bit(a, i + s)) {
            r[i >> 5] |= 1U << (i & 31);
        }
    }
    return r;
}
int cmp(const Limbs& a, const Limbs& b)
{
    for (int i = L; i-- > 0;) {
        if (a[i] != b[i]) {
            return a[i] < b[i] ? -1 : 1;
        }
    }
    return 0;
}
bool isZero(const Limbs& a) { return cmp(a, zero()) == 0; }
void divmod(const Limbs& a, const Limbs& b, Limbs& q, Limbs& r)
{
    q = zero();
    r = zero();
    for (int i = BITS; i-- > 0;) {
        const bool top = bit(r, BITS - 1);
        r = shl(r, 1);
        if (bit(a, i)) {
            r[0] |= 1;
        }
        if (top || cmp(r, b) >= 0) {
            r = sub(r, b);
            q[i >> 5] |= 1U << (i & 31);
        }
    }
}
int ilog2(const Limbs& a)
{
    for (int i = BITS; i-- > 0;) {
        if (bit(a, i)) {
            return i;
        }
    }
    return 0;
}
std::string dec(const Limbs& a0)
{
    Limbs a = a0;
    std::string s;
    while (!isZero(a)) {
        u64 c = 0;
        for (int i = L; i-- > 0;) {
            c = (c << 32) | a[i];
            a[i] = (uint32_t)(c / 10);
            c %= 10;
        }
        s = (char)('0' + c) + s;
    }
    return s.empty() ? "0" : s;
}
Limbs gen(Rng& g)
{
    Limbs r = zero();
    switch (g.below(8)) {
    case 0: // few bits
        for (int k = g.range(1, 3); k-- > 0;) {
            const int i = (int)g.below(BITS);
            r[i >> 5] |= 1U << (i & 31);
        }
        return r;
    case 1: // a run of ones
    {
        const int a = (int)g.below(BITS), n = g.range(1, BITS - a);
        for (int i = a; i < a + n; ++i) {
            r[i >> 5] |= 1U << (i & 31);
        }
        return r;
    }
    case 2: // near a word boundary
    {
        const int w[] = { 32, 64, 128, 192, 256, 320, 384, 448, 512, 1024 };
        int b = w[g.below(10)];
        if (b >= BITS) {
            b = 0;
        }
        r = b ? shl(small(1), b) : small(0);
        return g.chance(0.5) ? add(r, small(g.below(4))) : sub(r, small(g.below(4)));
    }
    case 3:
        return small(g.below(1000));
    case 4:
        return small(g.next());
    case 5: // limbs of extreme values
        for (int i = 0; i < L; ++i) {
            const uint32_t e[] = { 0, 0xffffffffU, 1, 0x80000000U };
            r[i] = e[g.below(4)];
        }
        return r;
    default: {
        const int n = g.range(1, L);
        for (int i = 0; i < n; ++i) {
            r[i] = (uint32_t)g.next();
        }
        return r;
    }
    }
}
} // namespace
static RegCheck rBig("bigint", [](Case& c) {
    Rng& g = c.g;
    const Limbs a = gen(g), b = g.chance(0.1) ? a : gen(g);
    const bitCapInt A = toB(a), Bv = toB(b);
    const std::string in = "a=" + dec(a) + " b=" + dec(b);
    c.log.push_back(in);
    c.programs.insert(hashStr(in));
    auto want = [&](const char* op, const bitCapInt& got, const Limbs& w) {
        ++c.cnt[std::string("op:") + op];
        c.states.insert(hashStr(dec(w)));
        if (cmp(fromB(got), w) != 0) {
            c.fail(op, std::string(op) + " gives " + dec(fromB(got)) + ", not " + dec(w) + "; " + in);
        }
    };
    auto wantI = [&](const char* op, long got, long w) {
        ++c.cnt[std::string("op:") + op];
        if (got != w) {
            c.fail(op, std::string(op) + " gives " + std::to_string(got) + ", not " + std::to_string(w) + "; " + in);
        }
    };
    bitCapInt t;
    want("a+b", A + Bv, add(a, b));
    want("a-b", A - Bv, sub(a, b));
    t = A;
    bi_add_ip(&t, Bv);
    want("bi_add_ip", t, add(a, b));
    t = A;
    bi_sub_ip(&t, Bv);
    want("bi_sub_ip", t, sub(a, b));
    want("a*b", A * Bv, mul(a, b));
    const u64 inc = g.chance(0.5) ? g.below(5) : g.next();
    t = A;
    bi_increment(&t, inc);
    want("bi_increment", t, add(a, small(inc)));
    t = A;
    bi_decrement(&t, inc);
    want("bi_decrement", t, sub(a, small(inc)));
    const int s = (int)g.below(BITS);
    c.log.push_back("shift " + std::to_string(s) + " inc " + std::to_string(inc));
    want("a<<s", A << (unsigned)s, shl(a, s));
    want("a>>s", A >> (unsigned)s, shr(a, s));
    t = A;
    bi_lshift_ip(&t, (unsigned)s);
    want("bi_lshift_ip", t, shl(a, s));
    t = A;
    bi_rshift_ip(&t, (unsigned)s);
    want("bi_rshift_ip", t, shr(a, s));
    Limbs w = zero();
    for (int i = 0; i < L; ++i) {
        w[i] = a[i] & b[i];
    }
    want("a&b", A & Bv, w);
    t = A;
    bi_and_ip(&t, Bv);
    want("bi_and_ip", t, w);
    for (int i = 0; i < L; ++i) {
        w[i] = a[i] | b[i];
    }
    want("a|b", A | Bv, w);
    t = A;
    bi_or_ip(&t, Bv);
    want("bi_or_ip", t, w);
    for (int i = 0; i < L; ++i) {
        w[i] = a[i] ^ b[i];
    }
    want("a^b", A ^ Bv, w);
    t = A;
    bi_xor_ip(&t, Bv);
    want("bi_xor_ip", t, w);
    want("~a", ~A, inv(a));
    t = A;
    bi_not_ip(&t);
    want("bi_not_ip", t, inv(a));
    const int cm = cmp(a, b);
    wantI("bi_compare", bi_compare(A, Bv), cm);
    wantI("a<b", A < Bv, cm < 0);
    wantI("a<=b", A <= Bv, cm <= 0);
    wantI("a>b", A > Bv, cm > 0);
    wantI("a>=b", A >= Bv, cm >= 0);
    wantI("a==b", A == Bv, cm == 0);
    wantI("bi_compare_0", bi_compare_0(A), !isZero(a));
    wantI("bi_compare_1", bi_compare_1(A), cmp(a, small(1)));
    wantI("bi_and_1", bi_and_1(A), a[0] & 1);
    wantI("bi_log2", bi_log2(A), ilog2(a));
    if (!isZero(a)) {
        wantI("log2", log2(A), (bitLenInt)ilog2(a));
    }
    int pc = 0;
    for (uint32_t x : a) {
        pc += __builtin_popcount(x);
    }
    wantI("isPowerOfTwo", isPowerOfTwo(A), pc == 1);
    if (!isZero(b)) {
        Limbs q, r;
        divmod(a, b, q, r);
        bitCapInt Qv, R;
        bi_div_mod(A, Bv, &Qv, &R);
        want("bi_div_mod quotient", Qv, q);
        want("bi_div_mod remainder", R, r);
        bitCapInt q2, r2;
        bi_div_mod(A, Bv, &q2, nullptr);
        want("bi_div_mod quotient only", q2, q);
        bi_div_mod(A, Bv, nullptr, &r2);
        want("bi_div_mod remainder only", r2, r);
    }
#if defined(__SIZEOF_INT128__)
    typedef uint64_t half;
#else
    typedef uint32_t half;
#endif
    const half hv = (half)(g.chance(0.3) ? g.next() : 1 + g.below(1000));
    if (hv) {
        Limbs q, r;
        divmod(a, small(hv), q, r);
        bitCapInt Qv;
        half rm = 0;
        bi_div_mod_small(A, hv, &Qv, &rm);
        want("bi_div_mod_small quotient", Qv, q);
        want("bi_div_mod_small remainder", (bitCapInt)rm, r);
        want("a*small", A * (bitCapInt)hv, mul(a, small(hv)));
    }
    {
        double d = 0;
        for (int i = L; i-- > 0;) {
            d = d * 4294967296.0 + a[i];
        }
        const double got = bi_to_double(A);
        ++c.cnt["op:bi_to_double"];
        if (!(got == d || std::fabs(got - d) <= 1e-9 * d)) {
            c.fail("bi_to_double", "bi_to_double gives " + std::to_string(got) + "; " + in);
        }
    }
    wantI("to u64", (long)(uint64_t)A, (long)((u64)a[0] | ((u64)a[1] << 32)));
    want("pow2", pow2((bitLenInt)s), shl(small(1), s));
    want("pow2Mask", pow2Mask((bitLenInt)s), sub(shl(small(1), s), small(1)));
    {
        const int len = g.range(0, BITS - s - (s == 0));
        want("bitRegMask", bitRegMask((bitLenInt)s, (bitLenInt)len), shl(sub(shl(small(1), len), small(1)), s));
        want("bitSlice", bitSlice((bitLenInt)s, A), bit(a, s) ? shl(small(1), s) : zero());
        wantI("log2(pow2)", (int)log2(pow2((bitLenInt)s)), (bitLenInt)s);
    }
    {
        const int pw = (int)g.below(40);
        Limbs w2 = small(1);
        const Limbs base = g.chance(0.5) ? small(g.below(20)) : a;
        for (int i = 0; i < pw; ++i) {
            w2 = mul(w2, base);
        }
        want("intPow", intPow(toB(base), (bitCapInt)(unsigned)pw), w2);
    }
    {
        // pushApartBits: insert zero bits at the listed (ascending) positions
        std::set<int> ps;
        const int np = g.range(0, 4);
        while ((int)ps.size() < np) {
            ps.insert((int)g.below(BITS));
        }
        std::vector<bitCapInt> pw;
        Limbs w2 = zero();
        for (int p : ps) {
            pw.push_back(pow2((bitLenInt)p));
        }
        int src = 0;
        for (int i = 0; i < BITS; ++i) {
            if (ps.count(i)) {
                continue;
            }
            if (bit(a, src)) {
                w2[i >> 5] |= 1U << (i & 31);
            }
            ++src;
        }
        want("pushApartBits", pushApartBits(A, pw), w2);
    }
    {
        // 64-bit helpers
        const bitCapIntOcl x = (bitCapIntOcl)((u64)a[0] | ((u64)a[1] << 32));
        wantI("popCountOcl", popCountOcl(x), __builtin_popcountll(x));
        if (x) {
            wantI("log2Ocl", log2Ocl(x), 63 - __builtin_clzll(x));
        }
        wantI("isPowerOfTwoOcl", isPowerOfTwoOcl(x), __builtin_popcountll(x) == 1);
        const u64 base = g.below(50), pw = g.below(30);
        u64 w2 = 1;
        for (u64 i = 0; i < pw; ++i) {
            w2 *= base;
        }
        wantI("intPowOcl", (long)intPowOcl(base, pw), (long)w2);
    }
#if QBCAPPOW > 6
    {
        std::ostringstream os;
        os << A;
        ++c.cnt["op:print"];
        if (os.str() != dec(a)) {
            c.fail("print", "prints " + os.str() + "; " + in);
        }
        std::istringstream is(dec(a) + " 17");
        bitCapInt r;
        is >> r;
        want("parse", r, a);
        is >> r;
        want("parse next", r, small(17));
    }
#endif
});
} // namespace vf
