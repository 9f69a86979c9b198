// P27: 2x2 exponentials, logarithms, products and inverses against closed forms in extended precision.
#include "harness.hpp"
namespace vf {
namespace {
typedef std::complex<long double> cl;
typedef std::vector<cl> M4;
M4 mulm(const M4& a, const M4& b)
{
    return { a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3] };
}
M4 expm(const M4& a) // scaling and squaring of the power series
{
    long double s = 0;
    for (auto& x : a) {
        s = std::max(s, std::abs(x));
    }
    int k = 0;
    while (s > 0.01L) {
        s /= 2;
        ++k;
    }
    const long double f = std::pow(2.0L, -k);
    M4 x = a, t = { 1, 0, 0, 1 }, r = t;
    for (auto& y : x) {
        y *= f;
    }
    for (int i = 1; i < 16; ++i) {
        t = mulm(t, x);
        for (int j = 0; j < 4; ++j) {
            t[j] /= (long double)i;
            r[j] += t[j];
        }
    }
    while (k--) {
        r = mulm(r, r);
    }
    return r;
}
long double dist(const M4& a, const M4& b)
{
    long double d = 0;
    for (int i = 0; i < 4; ++i) {
        d = std::max(d, std::abs(a[i] - b[i]));
    }
    return d;
}
std::vector<complex> toC(const M4& a)
{
    std::vector<complex> o;
    for (auto& x : a) {
        o.push_back(complex((real1)x.real(), (real1)x.imag()));
    }
    return o;
}
M4 fromC(const std::vector<complex>& a)
{
    M4 o;
    for (auto& x : a) {
        o.push_back(cl((long double)std::real(x), (long double)std::imag(x)));
    }
    return o;
}
std::string mstr(const M4& a)
{
    std::string s;
    for (auto& x : a) {
        char b[80];
        snprintf(b, sizeof b, " (%.9Lg,%.9Lg)", x.real(), x.imag());
        s += b;
    }
    return s;
}
M4 hermitian(Rng& g)
{
    auto sc = [&]() { return (long double)(g.chance(0.15) ? 0 : (g.chance(0.5) ? g.uni(-1, 1) : std::pow(10.0, g.uni(-6, 0.5)) * (g.chance(0.5) ? 1 : -1))); };
    const long double a = sc(), x = sc(), y = sc(), z = sc();
    return { cl(a + z, 0), cl(x, -y), cl(x, y), cl(a - z, 0) };
}
} // namespace
static RegCheck rExp("expm", [](Case& c) {
    Rng& g = c.g;
    const long double eps = (sizeof(real1) > 4) ? 1e-9L : 1e-4L;
    for (int it = 0; it < 16 && c.violation.empty(); ++it) {
        M4 h = hermitian(g);
        const long double t = (long double)(g.chance(0.5) ? g.uni(-3, 3) : std::pow(10.0, g.uni(-4, 1)));
        // what the simulator is given: rounded to its precision
        M4 a = h;
        for (auto& x : a) {
            x *= cl(0, -t);
        }
        std::vector<complex> in = toC(a), out(4), back(4);
        a = fromC(in);
        long double n = 1;
        for (auto& x : a) {
            n = std::max(n, std::abs(x));
        }
        c.programs.insert(hashStr(mstr(a)));
        const M4 want = expm(a);
        exp2x2(in.data(), out.data());
        const M4 got = fromC(out);
        ++c.cnt["exponentials"];
        long double d = dist(want, got);
        if (!(d < eps * n)) {
            c.fail("exp2x2", "exp2x2 of" + mstr(a) + " is" + mstr(got) + " instead of" + mstr(want) + ", off by " + f2s((double)d));
            break;
        }
        // the logarithm of a unitary matrix exponentiates back to it
        M4 u = expm(a);
        std::vector<complex> uc = toC(u), l(4), e(4);
        log2x2(uc.data(), l.data());
        d = dist(expm(fromC(l)), u);
        ++c.cnt["logarithms"];
        if (!(d < 10 * eps)) {
            c.fail("log2x2", "the exponential of log2x2 of" + mstr(u) + " differs from it by " + f2s((double)d) + "; log is" + mstr(fromC(l)));
            break;
        }
        for (int k = 0; k < 4; ++k) { // principal branch: anti-Hermitian with eigenvalues within (-pi, pi]
            if (!(std::abs(l[k]) < PI_R1 + 0.01)) {
                c.fail("log2x2", "log2x2 of" + mstr(u) + " is not the principal logarithm: " + mstr(fromC(l)));
            }
        }
        M4 v = expm(a);
        std::vector<complex> vc = toC(v), m(4), iv(4), id(4);
        M4 w = expm({ cl(0, g.uni(-3, 3)), cl(g.uni(-3, 3), g.uni(-3, 3)), 0, cl(0, g.uni(-3, 3)) });
        w[2] = -std::conj(w[1]) * 0.5L;
        std::vector<complex> wc = toC(w);
        mul2x2(vc.data(), wc.data(), m.data());
        d = dist(fromC(m), mulm(fromC(vc), fromC(wc)));
        if (!(d < eps)) {
            c.fail("mul2x2", "mul2x2 of" + mstr(v) + " and" + mstr(w) + " is off by " + f2s((double)d));
        }
        inv2x2(vc.data(), iv.data());
        d = dist(mulm(fromC(iv), v), { 1, 0, 0, 1 });
        if (!(d < eps)) {
            c.fail("inv2x2", "inv2x2 of" + mstr(v) + " is off by " + f2s((double)d));
        }
        c.states.insert(hashStr(mstr(got)));
    }
});
} // namespace vf
