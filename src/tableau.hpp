// An independent model of stabilizer states: n signed Pauli generators, no destabilizers. Nothing here uses Qrack code.
// A generator is i^ph X^x Z^z (per qubit: X to the left of Z).
#pragma once
#include "core.hpp"
#include <bitset>
namespace vf {
static const int TABN = 320;
typedef std::bitset<TABN> Bits;
struct Pauli {
    Bits x, z;
    int ph = 0;
    void mul(const Pauli& o)
    {
        ph = (ph + o.ph + 2 * (int)((z & o.x).count() & 1)) & 3;
        x ^= o.x;
        z ^= o.z;
    }
    bool negative() const { return ((ph - (int)((x & z).count())) & 3) == 2; }
};
struct Tab {
    int n;
    std::vector<Pauli> g;
    explicit Tab(int nn = 0)
        : n(nn)
        , g(nn)
    {
        for (int i = 0; i < n; ++i) {
            g[i].z[i] = 1;
        }
    }
    void H(int q)
    {
        for (Pauli& p : g) {
            if (p.x[q] && p.z[q]) {
                p.ph = (p.ph + 2) & 3;
            } else if (p.x[q] != p.z[q]) {
                p.x.flip(q);
                p.z.flip(q);
            }
        }
    }
    void S(int q)
    {
        for (Pauli& p : g) {
            if (p.x[q]) {
                p.z.flip(q);
                p.ph = (p.ph + 1) & 3;
            }
        }
    }
    void Z(int q)
    {
        for (Pauli& p : g) {
            if (p.x[q]) {
                p.ph ^= 2;
            }
        }
    }
    void X(int q)
    {
        for (Pauli& p : g) {
            if (p.z[q]) {
                p.ph ^= 2;
            }
        }
    }
    void CNOT(int c, int t)
    {
        for (Pauli& p : g) {
            if (p.x[c]) {
                p.x.flip(t);
            }
            if (p.z[t]) {
                p.z.flip(c);
            }
        }
    }
    void CZ(int c, int t)
    {
        H(t);
        CNOT(c, t);
        H(t);
    }
    void Swap(int a, int b)
    {
        if (a == b) {
            return;
        }
        for (Pauli& p : g) {
            bool t = p.x[a];
            p.x[a] = p.x[b];
            p.x[b] = t;
            t = p.z[a];
            p.z[a] = p.z[b];
            p.z[b] = t;
        }
    }
    // twice the probability of |1>: 0, 1 or 2
    int prob2(int q) const
    {
        for (const Pauli& p : g) {
            if (p.x[q]) {
                return 1;
            }
        }
        return sign(Zop(q)) ? 2 : 0;
    }
    static Pauli Zop(int q)
    {
        Pauli p;
        p.z[q] = 1;
        return p;
    }
    // The group contains +t or -t: returns whether it is -t.
    bool sign(const Pauli& t) const
    {
        std::vector<Pauli> r = g;
        Pauli a = t; // reduce t by the generators
        size_t top = 0;
        for (int k = 0; k < 2 * n && top < r.size(); ++k) {
            const bool isX = k < n;
            const int c = isX ? k : k - n;
            auto bit = [&](const Pauli& p) { return isX ? p.x[c] : p.z[c]; };
            size_t i = top;
            while (i < r.size() && !bit(r[i])) {
                ++i;
            }
            if (i == r.size()) {
                continue;
            }
            std::swap(r[i], r[top]);
            for (size_t j = top + 1; j < r.size(); ++j) {
                if (bit(r[j])) {
                    r[j].mul(r[top]);
                }
            }
            if (bit(a)) {
                a.mul(r[top]);
            }
            ++top;
        }
        if (a.x.any() || a.z.any()) {
            throw std::logic_error("model: operator is not in the group");
        }
        return a.ph == 2;
    }
    void project(int q, bool v)
    {
        int p = -1;
        for (size_t i = 0; i < g.size(); ++i) {
            if (g[i].x[q]) {
                if (p < 0) {
                    p = (int)i;
                } else {
                    g[i].mul(g[p]);
                }
            }
        }
        if (p >= 0) {
            g[p] = Zop(q);
            g[p].ph = v ? 2 : 0;
        }
    }
    // probability of the values v of the qubits qs, as -log2 (or -1: impossible)
    int logProb(const vi& qs, const std::vector<bool>& v) const
    {
        Tab t = *this;
        int k = 0;
        for (size_t i = 0; i < qs.size(); ++i) {
            const int p = t.prob2(qs[i]);
            if (p == 1) {
                ++k;
                t.project(qs[i], v[i]);
            } else if ((p == 2) != v[i]) {
                return -1;
            }
        }
        return k;
    }
    void compose(const Tab& o, int start)
    {
        for (Pauli& p : g) {
            p.x = spread(p.x, start, o.n);
            p.z = spread(p.z, start, o.n);
        }
        for (const Pauli& p : o.g) {
            Pauli m = p;
            m.x <<= start;
            m.z <<= start;
            g.push_back(m);
        }
        n += o.n;
    }
    static Bits low(int k)
    {
        Bits b;
        for (int i = 0; i < k; ++i) {
            b[i] = 1;
        }
        return b;
    }
    static Bits spread(const Bits& b, int start, int len) { return (b & low(start)) | ((b >> start) << (start + len)); }
    static Bits shrink(const Bits& b, int start, int len) { return (b & low(start)) | ((b >> (start + len)) << start); }
    // generators of the subgroup that acts only inside (or only outside) the range
    std::vector<Pauli> sub(int start, int len, bool inside) const
    {
        std::vector<Pauli> r = g;
        size_t top = 0;
        for (int c = 0; c < n; ++c) {
            if ((c >= start && c < start + len) == inside) {
                continue;
            }
            for (int isX = 0; isX < 2; ++isX) {
                auto bit = [&](const Pauli& p) { return isX ? p.x[c] : p.z[c]; };
                size_t i = top;
                while (i < r.size() && !bit(r[i])) {
                    ++i;
                }
                if (i == r.size()) {
                    continue;
                }
                std::swap(r[i], r[top]);
                for (size_t j = 0; j < r.size(); ++j) {
                    if (j != top && bit(r[j])) {
                        r[j].mul(r[top]);
                    }
                }
                ++top;
            }
        }
        r.erase(r.begin(), r.begin() + top);
        return r;
    }
    bool separable(int start, int len) const { return (int)sub(start, len, true).size() == len; }
    Tab split(int start, int len)
    {
        std::vector<Pauli> in = sub(start, len, true), out = sub(start, len, false);
        if ((int)in.size() != len || (int)out.size() != n - len) {
            throw std::logic_error("model: not separable");
        }
        Tab t(len);
        t.g = in;
        for (Pauli& p : t.g) {
            p.x >>= start;
            p.z >>= start;
        }
        for (Pauli& p : out) {
            p.x = shrink(p.x, start, len);
            p.z = shrink(p.z, start, len);
        }
        g = out;
        n -= len;
        return t;
    }
    // log2 of the number of basis states with a nonzero amplitude
    int xrank() const
    {
        std::vector<Bits> r;
        for (const Pauli& p : g) {
            r.push_back(p.x);
        }
        size_t top = 0;
        for (int c = 0; c < n && top < r.size(); ++c) {
            size_t i = top;
            while (i < r.size() && !r[i][c]) {
                ++i;
            }
            if (i == r.size()) {
                continue;
            }
            std::swap(r[i], r[top]);
            for (size_t j = top + 1; j < r.size(); ++j) {
                if (r[j][c]) {
                    r[j] ^= r[top];
                }
            }
            ++top;
        }
        return (int)top;
    }
    u64 hash() const
    {
        // (of the generators as they are; the same state can have several)
        u64 h = 7;
        std::hash<Bits> hb;
        for (const Pauli& p : g) {
            h = mix(h, hb(p.x) ^ (hb(p.z) * 31) ^ (u64)p.ph);
        }
        return h;
    }
};
} // namespace vf
