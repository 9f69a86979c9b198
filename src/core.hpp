// Core of the monitors: PRNG, an independent dense double-precision model of a quantum register, and the description of
// workload operations. Nothing here uses Qrack code.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {
typedef std::complex<double> cd;
typedef uint64_t u64;
typedef std::vector<int> vi;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1)
        : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL)
    {
        next();
        next();
    }
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? (next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); } // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    double gauss()
    {
        double u = unit(), v = unit();
        if (u < 1e-300) {
            u = 1e-300;
        }
        return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
    }
    // k distinct values of [0, n)
    vi pick(int n, int k)
    {
        vi a(n);
        for (int i = 0; i < n; ++i) {
            a[i] = i;
        }
        for (int i = 0; i < k; ++i) {
            std::swap(a[i], a[i + (int)below(n - i)]);
        }
        a.resize(k);
        return a;
    }
};

inline u64 mix(u64 a, u64 b)
{
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ULL));
    return r.next();
}

inline u64 hashStr(const std::string& s)
{
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    return h;
}

// ------------------------------------------------------------------------------------------------ dense model
struct Ref {
    int n;
    std::vector<cd> v;

    explicit Ref(int nn = 0, u64 perm = 0)
        : n(nn)
        , v((size_t)1 << nn, cd(0, 0))
    {
        v[perm] = 1;
    }
    u64 dim() const { return (u64)1 << n; }
    double norm2() const
    {
        double s = 0;
        for (const cd& a : v) {
            s += std::norm(a);
        }
        return s;
    }
    void normalize()
    {
        const double s = std::sqrt(norm2());
        if (s > 0) {
            for (cd& a : v) {
                a /= s;
            }
        }
    }
    // 2x2 matrix on t where controls c have the permutation cperm (bit k of cperm is the value of c[k])
    void mtrx(const vi& c, u64 cperm, const cd* m, int t)
    {
        u64 cm = 0, cv = 0;
        for (size_t k = 0; k < c.size(); ++k) {
            cm |= (u64)1 << c[k];
            if ((cperm >> k) & 1) {
                cv |= (u64)1 << c[k];
            }
        }
        const u64 tb = (u64)1 << t;
        for (u64 i = 0; i < dim(); ++i) {
            if ((i & tb) || ((i & cm) != cv)) {
                continue;
            }
            const cd a = v[i], b = v[i | tb];
            v[i] = m[0] * a + m[1] * b;
            v[i | tb] = m[2] * a + m[3] * b;
        }
    }
    void mtrx(const cd* m, int t) { mtrx(vi(), 0, m, t); }
    void cmtrx(const vi& c, const cd* m, int t) { mtrx(c, ~(u64)0, m, t); }
    // 4x4 matrix on (q0 = low bit, q1 = high bit), on controlled subspace
    void mtrx4(const vi& c, u64 cperm, const cd* m, int q0, int q1)
    {
        u64 cm = 0, cv = 0;
        for (size_t k = 0; k < c.size(); ++k) {
            cm |= (u64)1 << c[k];
            if ((cperm >> k) & 1) {
                cv |= (u64)1 << c[k];
            }
        }
        const u64 b0 = (u64)1 << q0, b1 = (u64)1 << q1;
        for (u64 i = 0; i < dim(); ++i) {
            if ((i & b0) || (i & b1) || ((i & cm) != cv)) {
                continue;
            }
            const u64 ix[4] = { i, i | b0, i | b1, i | b0 | b1 };
            cd in[4];
            for (int k = 0; k < 4; ++k) {
                in[k] = v[ix[k]];
            }
            for (int r = 0; r < 4; ++r) {
                cd s = 0;
                for (int k = 0; k < 4; ++k) {
                    s += m[4 * r + k] * in[k];
                }
                v[ix[r]] = s;
            }
        }
    }
    void permute(const std::function<u64(u64)>& f)
    {
        std::vector<cd> o(v.size(), cd(0, 0));
        for (u64 i = 0; i < dim(); ++i) {
            if (v[i] != cd(0, 0)) {
                o[f(i)] += v[i];
            }
        }
        v.swap(o);
    }
    void phase(const std::function<cd(u64)>& f)
    {
        for (u64 i = 0; i < dim(); ++i) {
            v[i] *= f(i);
        }
    }
    double probMask(u64 mask, u64 val) const
    {
        double p = 0;
        for (u64 i = 0; i < dim(); ++i) {
            if ((i & mask) == val) {
                p += std::norm(v[i]);
            }
        }
        return p;
    }
    double prob(int q) const { return probMask((u64)1 << q, (u64)1 << q); }
    void project(u64 mask, u64 val)
    {
        for (u64 i = 0; i < dim(); ++i) {
            if ((i & mask) != val) {
                v[i] = 0;
            }
        }
        normalize();
    }
    static int parity(u64 x) { return __builtin_popcountll(x) & 1; }
    double probParity(u64 mask) const
    {
        double p = 0;
        for (u64 i = 0; i < dim(); ++i) {
            if (parity(i & mask)) {
                p += std::norm(v[i]);
            }
        }
        return p;
    }
    void projectParity(u64 mask, bool odd)
    {
        for (u64 i = 0; i < dim(); ++i) {
            if ((bool)parity(i & mask) != odd) {
                v[i] = 0;
            }
        }
        normalize();
    }
    // insert o's qubits at position start
    void compose(const Ref& o, int start)
    {
        Ref r(n + o.n);
        const u64 lowM = ((u64)1 << start) - 1, oM = ((u64)1 << o.n) - 1;
        for (u64 i = 0; i < r.dim(); ++i) {
            const u64 a = (i & lowM) | ((i >> (start + o.n)) << start);
            const u64 b = (i >> start) & oM;
            r.v[i] = v[a] * o.v[b];
        }
        n = r.n;
        v.swap(r.v);
    }
    // Split [start, start+len) out. Returns false when it is not separable (to within tol of purity).
    bool split(int start, int len, Ref& part, double tol = 1e-6)
    {
        const int rn = n - len;
        Ref rest(rn);
        Ref p(len);
        const u64 lowM = ((u64)1 << start) - 1;
        auto idx = [&](u64 a, u64 b) { return (a & lowM) | (b << start) | ((a >> start) << (start + len)); };
        u64 ba = 0, bb = 0;
        double best = -1;
        for (u64 a = 0; a < rest.dim(); ++a) {
            for (u64 b = 0; b < p.dim(); ++b) {
                const double x = std::norm(v[idx(a, b)]);
                if (x > best) {
                    best = x;
                    ba = a;
                    bb = b;
                }
            }
        }
        for (u64 a = 0; a < rest.dim(); ++a) {
            rest.v[a] = v[idx(a, bb)];
        }
        for (u64 b = 0; b < p.dim(); ++b) {
            p.v[b] = v[idx(ba, b)];
        }
        rest.normalize();
        p.normalize();
        cd ov = 0;
        for (u64 a = 0; a < rest.dim(); ++a) {
            for (u64 b = 0; b < p.dim(); ++b) {
                ov += std::conj(rest.v[a] * p.v[b]) * v[idx(a, b)];
            }
        }
        if (std::norm(ov) < (1 - tol) * norm2()) {
            return false;
        }
        const cd ph = ov / std::abs(ov);
        for (cd& x : rest.v) {
            x *= ph;
        }
        n = rn;
        v.swap(rest.v);
        part = p;
        return true;
    }
    bool separable(int start, int len, double tol = 1e-6) const
    {
        Ref c = *this, p(0);
        return c.split(start, len, p, tol);
    }
    double fidelity(const std::vector<cd>& o) const
    {
        cd s = 0;
        double no = 0;
        for (u64 i = 0; i < dim(); ++i) {
            s += std::conj(v[i]) * o[i];
            no += std::norm(o[i]);
        }
        const double nn = norm2();
        if (!(no > 0) || !(nn > 0)) {
            return 0;
        }
        return std::norm(s) / (no * nn);
    }
};

// ------------------------------------------------------------------------------------------------ operations
struct Op {
    std::string name;
    std::vector<long> q; // qubits, lengths, integers
    std::vector<double> p; // real parameters
    std::string str() const
    {
        std::ostringstream o;
        o << name << " |";
        for (long x : q) {
            o << " " << x;
        }
        o << " |";
        for (double x : p) {
            char b[40];
            snprintf(b, sizeof b, " %.17g", x);
            o << b;
        }
        return o.str();
    }
    static Op parse(const std::string& line)
    {
        Op o;
        std::istringstream is(line);
        is >> o.name;
        std::string t;
        int sec = 0;
        while (is >> t) {
            if (t == "|") {
                ++sec;
            } else if (sec == 1) {
                o.q.push_back(strtol(t.c_str(), nullptr, 10));
            } else {
                o.p.push_back(strtod(t.c_str(), nullptr));
            }
        }
        return o;
    }
};

// Profile of angles and gates a generator may use
struct Prof {
    int level = 2; // 0 = Clifford only, 1 = Clifford + T (multiples of pi/4), 2 = any
    int maxCtrl = 3;
};
} // namespace vf
