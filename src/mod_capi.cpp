// Monitor for the C interface: several simulators, circuits and neurons addressed by IDs, driven only through the exported
// functions; every simulator has an independent dense model whose qubits are named by the caller's qubit IDs.
#include "capi.hpp"
#include "hamiltonian.hpp"
#include <atomic>
#include <mutex>
#include <thread>
namespace vf {
typedef std::conditional<(FPPOW > 5), double, float>::type capiReal;
struct NullBuf : std::streambuf {
    int overflow(int c) override { return c; }
};
static NullBuf nullBuf;
void quietCout()
{
    static bool done = false;
    if (!done) {
        std::cout.rdbuf(&nullBuf);
        done = true;
    }
}

namespace {
typedef uintq uq;
struct Sim {
    uq sid;
    Ref r{ 0 };
    std::vector<uq> ids; // model qubit k has this ID
    bool permuted = false; // the physical order may differ from the order of `ids`
    int type = 0;
    bool none() const { return ids.empty(); }
};
struct GateRec {
    vi ctrl;
    u64 perm;
    int t;
    cd m[4];
    bool swap;
};
struct Circ {
    uq cid;
    std::vector<GateRec> gates;
    int n = 0;
    bool collapse = true;
};

// IDs of simulators alive in any thread: [0] simulators, [1] circuits
static std::mutex liveMutex;
static std::set<uq> live[2];
static bool born(int kind, uq id)
{
    std::lock_guard<std::mutex> l(liveMutex);
    return live[kind].insert(id).second;
}
static void gone(int kind, uq id)
{
    std::lock_guard<std::mutex> l(liveMutex);
    live[kind].erase(id);
}

struct Runner {
    Case& c;
    std::function<void()> extra; // called between calls
    bool alone = true; // no other thread uses the interface
    Rng& g;
    std::vector<Sim> sims;
    std::vector<Circ> circs;
    std::set<uq> freeIds; // destroyed simulator IDs
    size_t maxSid = 0;
    bool bad = false;
    explicit Runner(Case& cc)
        : c(cc)
        , g(cc.g)
    {
    }
    uq fresh(int kind, uq id, const char* what)
    {
        if (!born(kind, id)) {
            fail(kind ? "cid" : "sid", std::string(what) + " returned ID " + std::to_string(id) + ", which is in use");
        }
        return id;
    }
    void kill(int kind, uq id)
    {
        gone(kind, id);
        kind ? ::destroy_qcircuit(id) : ::destroy(id);
    }
    void say(const std::string& s)
    {
        c.log.push_back(s);
        if (c.verbose) {
            fprintf(stderr, "%s\n", s.c_str());
        }
    }
    void fail(const std::string& k, const std::string& t)
    {
        bad = true;
        c.fail(k, t);
    }
    static std::string join(const std::vector<uq>& v)
    {
        std::string s;
        for (uq x : v) {
            s += (s.empty() ? "" : ",") + std::to_string(x);
        }
        return "[" + s + "]";
    }
    uq newId(const Sim& s)
    {
        for (;;) {
            const uq id = g.chance(0.6) ? g.below(12) : g.chance(0.8) ? g.below(200) : 250 + g.below(500);
            if (std::find(s.ids.begin(), s.ids.end(), id) == s.ids.end()) {
                return id;
            }
        }
    }
    int pos(const Sim& s, uq id) { return (int)(std::find(s.ids.begin(), s.ids.end(), id) - s.ids.begin()); }
    std::vector<uq> idsOf(const Sim& s, const vi& p)
    {
        std::vector<uq> r;
        for (int k : p) {
            r.push_back(s.ids[k]);
        }
        return r;
    }
    bool err(const Sim& s, const std::string& op)
    {
        if (s.none()) {
            return false;
        }
        const int e = ::get_error(s.sid);
        if (e) {
            fail("error:" + op, "get_error reports " + std::to_string(e) + " after a valid call of " + op);
            return true;
        }
        return false;
    }
    // ---- observation through IDs only
    void probs(const Sim& s, const Ref& r, uq sid, const std::string& what)
    {
        const int n = (int)s.ids.size();
        std::vector<capiReal> p((size_t)1 << n, -7.f);
        std::vector<uq> ids = s.ids;
        vi order(n);
        for (int i = 0; i < n; ++i) {
            order[i] = i;
        }
        if (g.chance(0.5)) {
            order = g.pick(n, n);
            ids = idsOf(s, order);
        }
        ::ProbAll(sid, n, ids.data(), p.data());
        for (u64 i = 0; i < p.size(); ++i) {
            u64 k = 0;
            for (int j = 0; j < n; ++j) {
                k |= ((i >> j) & 1) << order[j];
            }
            const double want = std::norm(r.v[k]);
            if (!(std::fabs(p[i] - want) < 3e-3)) {
                fail("state:" + what, "after " + what + ": ProbAll of IDs " + join(ids) + " gives " + f2s(p[i]) + " for outcome " +
                        std::to_string(i) + ", the ideal state says " + f2s(want));
                return;
            }
        }
        ++c.cnt["distributions compared"];
    }
    void check(Sim& s, const std::string& what)
    {
        if (bad || s.none()) {
            return;
        }
        const uq nq = ::num_qubits(s.sid);
        if (nq != s.ids.size()) {
            fail("count:" + what, "after " + what + ": num_qubits is " + std::to_string(nq) + ", not " + std::to_string(s.ids.size()));
            return;
        }
        static thread_local std::vector<uq> seen;
        seen.clear();
        ::DumpIds(s.sid, [](uintq i) { seen.push_back(i); });
        std::vector<uq> a = seen, d = s.ids;
        std::sort(a.begin(), a.end());
        std::sort(d.begin(), d.end());
        if (a != d) {
            fail("ids:" + what, "after " + what + ": DumpIds lists " + join(a) + " instead of " + join(d));
            return;
        }
        probs(s, s.r, s.sid, what);
        if (bad) {
            return;
        }
        // other bases, on a clone; the original must not notice
        const uq k = fresh(0, ::init_clone(s.sid), "init_clone");
        if (std::any_of(sims.begin(), sims.end(), [&](const Sim& o) { return o.sid == k; })) {
            fail("sid", "init_clone returned ID " + std::to_string(k) + " which is in use");
            return;
        }
        Ref r2 = s.r;
        for (size_t i = 0; i < s.ids.size(); ++i) {
            const double th = g.uni(0.3, 2.8), ph = g.uni(-3, 3), la = g.uni(-3, 3);
            auto ex = [](double t) { return cd(std::cos(t), std::sin(t)); };
            const cd m[4] = { std::cos(th / 2), -ex(la) * std::sin(th / 2), ex(ph) * std::sin(th / 2), ex(ph + la) * std::cos(th / 2) };
            if (s.type == 3) {
                const cd h[4] = { M_SQRT1_2, M_SQRT1_2, M_SQRT1_2, -M_SQRT1_2 };
                if (g.chance(0.5)) {
                    ::H(k, s.ids[i]);
                    r2.mtrx(h, (int)i);
                }
            } else {
                ::U(k, s.ids[i], th, ph, la);
                r2.mtrx(m, (int)i);
            }
        }
        probs(s, r2, k, what + " (rotated clone)");
        kill(0, k);
        maxSid = std::max<size_t>(maxSid, k + 1);
        if (!s.permuted && g.chance(0.5) && !bad) {
            std::vector<capiReal> ket((size_t)2 << s.ids.size());
            ::OutKet(s.sid, ket.data());
            std::vector<cd> v;
            for (size_t i = 0; i < ket.size(); i += 2) {
                v.push_back(cd(ket[i], ket[i + 1]));
            }
            const double f = s.r.fidelity(v);
            if (!(f > 0.999)) {
                fail("ket:" + what, "after " + what + ": OutKet has fidelity " + f2s(f) + " with the ideal state");
            }
        }
        c.states.insert(stateHash(s.r.v));
    }
    // ---- actions
    static const int NTYPES = 2;
    uq initSim(int n, int type)
    {
        switch (type) {
        case 0:
            return ::init_count_type(n, false, false, false, false, false, false, false, false, false, false); // CPU
        case 1:
            return ::init_count_type(n, false, false, true, false, false, false, false, false, false, false); // QUnit on CPU
        case 2:
            return ::init_count(n, false); // default
        default:
            return ::init_count_type(n, false, false, true, true, false, false, false, false, false, false); // QUnit on stabilizer hybrid
        }
    }
    void addSim(int n, int type)
    {
        Sim s;
        s.type = type;
        s.sid = fresh(0, initSim(n, type), "init");
        say("init type " + std::to_string(type) + " n=" + std::to_string(n) + " -> " + std::to_string(s.sid));
        for (auto& o : sims) {
            if (o.sid == s.sid) {
                fail("sid", "a new simulator got ID " + std::to_string(s.sid) + " which is in use");
                return;
            }
        }
        s.r = Ref(n);
        for (int i = 0; i < n; ++i) {
            s.ids.push_back(i);
        }
        maxSid = std::max<size_t>(maxSid, s.sid + 1);
        sims.push_back(s);
        err(sims.back(), "init");
    }
    void measureTo0(Sim& s, int q)
    {
        const bool v = ::M(s.sid, s.ids[q]);
        observe(s, "M", (u64)1 << q, v ? (u64)1 << q : 0);
        if (v && !bad) {
            ::X(s.sid, s.ids[q]);
            s.r.permute([&](u64 i) { return i ^ ((u64)1 << q); });
        }
    }
    bool likely(double p, const std::string& what)
    {
        if (!(p > P_IMPOSSIBLE)) {
            fail("outcome:" + what, what + " gave an outcome of probability " + f2s(p));
            return false;
        }
        if (p < P_RARE) {
            bad = true; // (ends the case without a violation: the rest would only amplify rounding errors)
        }
        return !bad;
    }
    void observe(Sim& s, const std::string& what, u64 mask, u64 val)
    {
        const double p = s.r.probMask(mask, val);
        ++c.cnt["measurements"];
        if (!likely(p, what)) {
            return;
        }
        s.r.project(mask, val);
    }
    void uni(double* d, cd* m, bool diag = false)
    {
        const double th = diag ? 0 : g.uni(0, 3), ph = g.uni(-3, 3), la = g.uni(-3, 3), al = g.uni(-3, 3);
        auto ex = [](double t) { return cd(std::cos(t), std::sin(t)); };
        m[0] = ex(al) * std::cos(th / 2);
        m[1] = -ex(al + la) * std::sin(th / 2);
        m[2] = ex(al + ph) * std::sin(th / 2);
        m[3] = ex(al + ph + la) * std::cos(th / 2);
        for (int i = 0; i < 4; ++i) {
            d[2 * i] = m[i].real();
            d[2 * i + 1] = m[i].imag();
        }
    }
    static u64 gather(const vi& q, u64 i)
    {
        u64 r = 0;
        for (size_t k = 0; k < q.size(); ++k) {
            r |= ((i >> q[k]) & 1) << k;
        }
        return r;
    }
    static u64 scatter(const vi& q, u64 i, u64 v)
    {
        for (size_t k = 0; k < q.size(); ++k) {
            i = (i & ~((u64)1 << q[k])) | (((v >> k) & 1) << q[k]);
        }
        return i;
    }
    std::string gate(Sim& s);
    std::string arith(Sim& s);
    std::string meas(Sim& s);
    std::string query(Sim& s);
    std::string structure(size_t& i);
    std::string circuit(Sim* s);
    std::string invalid(Sim& s);
    void run();
};

std::string Runner::gate(Sim& s)
{
    const int n = (int)s.ids.size();
    const cd I(0, 1);
    const double r2 = M_SQRT1_2;
    struct Fix {
        const char* name;
        void (*f1)(uintq, uintq);
        void (*mc)(uintq, uintq, uintq*, uintq);
        void (*mac)(uintq, uintq, uintq*, uintq);
        cd m[4];
    };
    static const Fix fx[] = {
        { "X", ::X, ::MCX, ::MACX, { 0, 1, 1, 0 } },
        { "Y", ::Y, ::MCY, ::MACY, { 0, -I, I, 0 } },
        { "Z", ::Z, ::MCZ, ::MACZ, { 1, 0, 0, -1 } },
        { "H", ::H, ::MCH, ::MACH, { r2, r2, r2, -r2 } },
        { "S", ::S, ::MCS, ::MACS, { 1, 0, 0, I } },
        { "T", ::T, ::MCT, ::MACT, { 1, 0, 0, cd(r2, r2) } },
        { "AdjS", ::AdjS, ::MCAdjS, ::MACAdjS, { 1, 0, 0, -I } },
        { "AdjT", ::AdjT, ::MCAdjT, ::MACAdjT, { 1, 0, 0, cd(r2, -r2) } },
        { "SX", ::SX, nullptr, nullptr, { cd(.5, .5), cd(.5, -.5), cd(.5, -.5), cd(.5, .5) } },
        { "SY", ::SY, nullptr, nullptr, { cd(.5, .5), cd(-.5, -.5), cd(.5, .5), cd(.5, .5) } },
        { "AdjSX", ::AdjSX, nullptr, nullptr, { cd(.5, -.5), cd(.5, .5), cd(.5, .5), cd(.5, -.5) } },
        { "AdjSY", ::AdjSY, nullptr, nullptr, { cd(.5, -.5), cd(.5, -.5), cd(-.5, .5), cd(.5, -.5) } },
    };
    const int kind = g.range(0, 15);
    double d[8];
    cd m[4];
    if (kind <= 3) {
        const Fix& f = fx[g.below(12)];
        const int t = g.range(0, n - 1);
        say(std::string(f.name) + " sim " + std::to_string(s.sid) + " id " + std::to_string(s.ids[t]));
        f.f1(s.sid, s.ids[t]);
        s.r.mtrx(f.m, t);
        return f.name;
    }
    if (kind <= 6) {
        const Fix& f = fx[g.below(8)];
        const int k = g.range(0, std::min(3, n - 1));
        vi v = g.pick(n, k + 1);
        const int t = v.back();
        v.pop_back();
        std::vector<uq> ci = idsOf(s, v);
        const bool anti = g.chance(0.4);
        const std::string nm = std::string(anti ? "MAC" : "MC") + f.name;
        say(nm + " sim " + std::to_string(s.sid) + " " + join(ci) + " -> " + std::to_string(s.ids[t]));
        (anti ? f.mac : f.mc)(s.sid, k, ci.data(), s.ids[t]);
        s.r.mtrx(v, anti ? 0 : ~(u64)0, f.m, t);
        return nm;
    }
    if (kind <= 8) {
        const int k = g.range(0, std::min(3, n - 1));
        vi v = g.pick(n, k + 1);
        const int t = v.back();
        v.pop_back();
        std::vector<uq> ci = idsOf(s, v);
        const int w = g.range(0, 6);
        const char* nm[] = { "Mtrx", "MCMtrx", "MACMtrx", "UCMtrx", "U", "MCU", "MACU" };
        say(std::string(nm[w]) + " sim " + std::to_string(s.sid) + " " + join(ci) + " -> " + std::to_string(s.ids[t]));
        if (w >= 4) {
            const double th = g.uni(-3, 3), ph = g.uni(-3, 3), la = g.uni(-3, 3);
            auto ex = [](double x) { return cd(std::cos(x), std::sin(x)); };
            const cd u[4] = { std::cos(th / 2), -ex(la) * std::sin(th / 2), ex(ph) * std::sin(th / 2), ex(ph + la) * std::cos(th / 2) };
            if (w == 4) {
                ::U(s.sid, s.ids[t], th, ph, la);
                s.r.mtrx(u, t);
            } else if (w == 5) {
                ::MCU(s.sid, k, ci.data(), s.ids[t], th, ph, la);
                s.r.cmtrx(v, u, t);
            } else {
                ::MACU(s.sid, k, ci.data(), s.ids[t], th, ph, la);
                s.r.mtrx(v, 0, u, t);
            }
            return nm[w];
        }
        uni(d, m, g.chance(0.3));
        if (w == 0) {
            ::Mtrx(s.sid, d, s.ids[t]);
            s.r.mtrx(m, t);
        } else if (w == 1) {
            ::MCMtrx(s.sid, k, ci.data(), d, s.ids[t]);
            s.r.cmtrx(v, m, t);
        } else if (w == 2) {
            ::MACMtrx(s.sid, k, ci.data(), d, s.ids[t]);
            s.r.mtrx(v, 0, m, t);
        } else {
            const u64 p = g.below((u64)1 << k);
            ::UCMtrx(s.sid, k, ci.data(), d, s.ids[t], p);
            s.r.mtrx(v, p, m, t);
        }
        return nm[w];
    }
#if !(FPPOW < 6 && !defined(ENABLE_COMPLEX_X2))
    if (kind == 9 && g.chance(0.4)) { // exp(-i H t), one term after the other
        const int terms = g.range(1, 3);
        const double t = g.uni(-2, 2);
        std::vector<_QrackTimeEvolveOpHeader> hs;
        std::vector<double> all;
        std::string d = "TimeEvolve sim " + std::to_string(s.sid) + " " + f2s(t);
        for (int j = 0; j < terms; ++j) {
            const int k = g.range(0, std::min(2, n - 1));
            vi v = g.pick(n, k + 1);
            const int tq = v.back();
            v.pop_back();
            std::vector<uq> ci = idsOf(s, v);
            _QrackTimeEvolveOpHeader hd;
            hd.target = (unsigned)s.ids[tq];
            hd.controlLen = (unsigned)k;
            std::copy(ci.begin(), ci.end(), hd.controls);
            hs.push_back(hd);
            d += " [" + join(ci) + " -> " + std::to_string(s.ids[tq]) + "]";
            for (int p = 0; p < (1 << k); ++p) {
                const double a = g.uni(-1, 1), x = g.uni(-1, 1), y = g.uni(-1, 1), z = g.uni(-1, 1);
                const double l = std::sqrt(x * x + y * y + z * z) + 1e-12;
                const double b[8] = { a + z, 0, x, -y, x, y, a - z, 0 };
                all.insert(all.end(), b, b + 8);
                const double cs = std::cos(l * t), sn = std::sin(l * t) / l;
                const cd e = std::polar(1.0, -a * t), i(0, 1);
                const cd u[4] = { e * (cs - i * sn * z), e * (-i * sn * cd(x, -y)), e * (-i * sn * cd(x, y)), e * (cs + i * sn * z) };
                s.r.mtrx(v, p, u, tq);
            }
        }
        say(d);
        ::TimeEvolve(s.sid, t, hs.size(), hs.data(), all.size(), all.data());
        return "TimeEvolve";
    }
#endif
    if (kind == 9) {
        const int k = g.range(0, std::min(2, n - 1));
        vi v = g.pick(n, k + 1);
        const int t = v.back();
        v.pop_back();
        std::vector<uq> ci = idsOf(s, v);
        std::vector<double> all;
        std::vector<cd> ms;
        for (int p = 0; p < (1 << k); ++p) {
            uni(d, m);
            all.insert(all.end(), d, d + 8);
            ms.insert(ms.end(), m, m + 4);
        }
        say("Multiplex1Mtrx sim " + std::to_string(s.sid) + " " + join(ci) + " -> " + std::to_string(s.ids[t]));
        ::Multiplex1Mtrx(s.sid, k, ci.data(), s.ids[t], all.data());
        for (int p = 0; p < (1 << k); ++p) {
            s.r.mtrx(v, p, &ms[4 * p], t);
        }
        return "Multiplex1Mtrx";
    }
    if (kind == 10) {
        vi v = g.pick(n, g.range(1, n));
        std::vector<uq> ci = idsOf(s, v);
        const int w = g.range(0, 2);
        const char* nm[] = { "MX", "MY", "MZ" };
        say(std::string(nm[w]) + " sim " + std::to_string(s.sid) + " " + join(ci));
        (w == 0 ? ::MX : w == 1 ? ::MY : ::MZ)(s.sid, ci.size(), ci.data());
        for (int t : v) {
            s.r.mtrx(fx[w].m, t);
        }
        return nm[w];
    }
    if (kind == 11) {
        // rotations; Pauli X = 1, Y = 3, Z = 2
        const int pa[] = { 1, 3, 2 };
        const int w = g.range(0, 2);
        const double phi = g.uni(-6, 6), co = std::cos(phi / 2), si = std::sin(phi / 2);
        const cd rot[3][4] = { { co, -I * si, -I * si, co }, { co, -si, si, co }, { cd(co, -si), 0, 0, cd(co, si) } };
        const int k = g.range(0, std::min(2, n - 1));
        vi v = g.pick(n, k + 1);
        const int t = v.back();
        v.pop_back();
        std::vector<uq> ci = idsOf(s, v);
        if (k == 0 && g.chance(0.7)) {
            say("R pauli " + std::to_string(pa[w]) + " sim " + std::to_string(s.sid) + " id " + std::to_string(s.ids[t]));
            ::R(s.sid, pa[w], phi, s.ids[t]);
            s.r.mtrx(rot[w], t);
            return "R";
        }
        say("MCR pauli " + std::to_string(pa[w]) + " sim " + std::to_string(s.sid) + " " + join(ci) + " -> " + std::to_string(s.ids[t]));
        ::MCR(s.sid, pa[w], phi, k, ci.data(), s.ids[t]);
        s.r.cmtrx(v, rot[w], t);
        return "MCR";
    }
    if (kind == 12) {
        // exp(i phi P)
        const int pa[] = { 0, 1, 3, 2 };
        const bool ctl = g.chance(0.4) && n > 1;
        const int nc = ctl ? g.range(1, std::min(2, n - 1)) : 0;
        const int k = g.range(1, std::min(3, n - nc));
        vi v = g.pick(n, nc + k), cv(v.begin(), v.begin() + nc), tv(v.begin() + nc, v.end());
        std::vector<int> bs, wb;
        bool any = false;
        for (int i = 0; i < k; ++i) {
            const int w = g.range(0, 3);
            wb.push_back(w);
            bs.push_back(pa[w]);
            any |= w != 0;
        }
        if (!any) {
            wb[0] = 3;
            bs[0] = 2;
        }
        const double phi = g.uni(-3, 3);
        std::vector<uq> ci = idsOf(s, cv), ti = idsOf(s, tv);
        const cd h[4] = { r2, r2, r2, -r2 };
        // model: basis change, parity phase, back
        Ref& r = s.r;
        u64 mask = 0, cm = 0;
        for (int q : cv) {
            cm |= (u64)1 << q;
        }
        for (int i = 0; i < k; ++i) {
            if (wb[i]) {
                mask |= (u64)1 << tv[i];
            }
            if (wb[i] == 1) {
                r.mtrx(h, tv[i]);
            } else if (wb[i] == 2) {
                r.mtrx(fx[6].m, tv[i]);
                r.mtrx(h, tv[i]);
            }
        }
        r.phase([&](u64 i) -> cd {
            if ((i & cm) != cm) {
                return 1;
            }
            const double a = Ref::parity(i & mask) ? -phi : phi;
            return cd(std::cos(a), std::sin(a));
        });
        for (int i = 0; i < k; ++i) {
            if (wb[i] == 1) {
                r.mtrx(h, tv[i]);
            } else if (wb[i] == 2) {
                r.mtrx(h, tv[i]);
                r.mtrx(fx[4].m, tv[i]);
            }
        }
        std::string pl;
        for (int x : bs) {
            pl += std::to_string(x);
        }
        say(std::string(ctl ? "MCExp" : "Exp") + " sim " + std::to_string(s.sid) + " paulis " + pl + " on " + join(ti) + " controls " + join(ci));
        if (ctl) {
            ::MCExp(s.sid, k, bs.data(), phi, nc, ci.data(), ti.data());
            return "MCExp";
        }
        ::Exp(s.sid, k, bs.data(), phi, ti.data());
        return "Exp";
    }
    if (kind == 13) {
        if (n < 2) {
            return "";
        }
        const int w = g.range(0, 5);
        const char* nm[] = { "SWAP", "ISWAP", "AdjISWAP", "FSim", "CSWAP", "ACSWAP" };
        const int nc = w >= 4 ? g.range(1, 2) : 0;
        if (n < 2 + nc) {
            return "";
        }
        vi v = g.pick(n, 2 + nc), cv(v.begin() + 2, v.end());
        std::vector<uq> ci = idsOf(s, cv);
        const uq a = s.ids[v[0]], b = s.ids[v[1]];
        say(std::string(nm[w]) + " sim " + std::to_string(s.sid) + " " + std::to_string(a) + " " + std::to_string(b) + " controls " + join(ci));
        const cd sw[16] = { 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1 };
        const cd isw[16] = { 1, 0, 0, 0, 0, 0, I, 0, 0, I, 0, 0, 0, 0, 0, 1 };
        const cd iisw[16] = { 1, 0, 0, 0, 0, 0, -I, 0, 0, -I, 0, 0, 0, 0, 0, 1 };
        if (w == 0) {
            ::SWAP(s.sid, a, b);
            s.r.mtrx4(vi(), 0, sw, v[0], v[1]);
        } else if (w == 1) {
            ::ISWAP(s.sid, a, b);
            s.r.mtrx4(vi(), 0, isw, v[0], v[1]);
        } else if (w == 2) {
            ::AdjISWAP(s.sid, a, b);
            s.r.mtrx4(vi(), 0, iisw, v[0], v[1]);
        } else if (w == 3) {
            const double th = g.uni(-3, 3), ph = g.uni(-3, 3);
            ::FSim(s.sid, th, ph, a, b);
            const cd f[16] = { 1, 0, 0, 0, 0, std::cos(th), -I * std::sin(th), 0, 0, -I * std::sin(th), std::cos(th), 0, 0, 0, 0, std::polar(1.0, -ph) };
            s.r.mtrx4(vi(), 0, f, v[0], v[1]);
        } else if (w == 4) {
            ::CSWAP(s.sid, nc, ci.data(), a, b);
            s.r.mtrx4(cv, ~(u64)0, sw, v[0], v[1]);
        } else {
            ::ACSWAP(s.sid, nc, ci.data(), a, b);
            s.r.mtrx4(cv, 0, sw, v[0], v[1]);
        }
        return nm[w];
    }
    if (kind == 14) {
        if (n < 3) {
            return "";
        }
        vi v = g.pick(n, 3);
        const int w = g.range(0, 11);
        const char* nm[] = { "AND", "OR", "XOR", "NAND", "NOR", "XNOR", "CLAND", "CLOR", "CLXOR", "CLNAND", "CLNOR", "CLXNOR" };
        if (s.type == 3) {
            return "";
        }
        measureTo0(s, v[2]);
        if (bad) {
            return nm[w];
        }
        const uq a = s.ids[v[0]], b = s.ids[v[1]], o = s.ids[v[2]];
        const bool ci = g.chance(0.5);
        say(std::string(nm[w]) + " sim " + std::to_string(s.sid) + (w < 6 ? " " + std::to_string(a) : " const " + std::to_string(ci)) + " " + std::to_string(b) + " -> " + std::to_string(o));
        void (*f2[])(uintq, uintq, uintq, uintq) = { ::AND, ::OR, ::XOR, ::NAND, ::NOR, ::XNOR };
        void (*fc[])(uintq, bool, uintq, uintq) = { ::CLAND, ::CLOR, ::CLXOR, ::CLNAND, ::CLNOR, ::CLXNOR };
        if (w < 6) {
            f2[w](s.sid, a, b, o);
        } else {
            fc[w - 6](s.sid, ci, b, o);
        }
        s.r.permute([&](u64 i) {
            const bool x = w < 6 ? (i >> v[0]) & 1 : ci, y = (i >> v[1]) & 1;
            bool z = false;
            switch (w % 6) {
            case 0:
                z = x && y;
                break;
            case 1:
                z = x || y;
                break;
            case 2:
                z = x != y;
                break;
            case 3:
                z = !(x && y);
                break;
            case 4:
                z = !(x || y);
                break;
            default:
                z = x == y;
            }
            return z ? i ^ ((u64)1 << v[2]) : i;
        });
        return nm[w];
    }
    // masks and Fourier transform
    vi v = g.pick(n, g.range(1, n));
    std::vector<uq> ci = idsOf(s, v);
    u64 mask = 0;
    for (int q : v) {
        mask |= (u64)1 << q;
    }
    const int w = g.range(0, 3);
    if (w == 0) {
        const double l = g.uni(-3, 3);
        say("PhaseParity sim " + std::to_string(s.sid) + " " + join(ci));
        ::PhaseParity(s.sid, l, ci.size(), ci.data());
        s.r.phase([&](u64 i) { const double a = Ref::parity(i & mask) ? l / 2 : -l / 2; return cd(std::cos(a), std::sin(a)); });
        return "PhaseParity";
    }
    if (w == 1) {
        const int p = g.range(0, 4);
        say("PhaseRootN sim " + std::to_string(s.sid) + " p=" + std::to_string(p) + " " + join(ci));
        ::PhaseRootN(s.sid, p, ci.size(), ci.data());
        if (p > 0) {
            const double a = -2 * M_PI / (double)((u64)1 << p);
            s.r.phase([&](u64 i) { const double x = a * __builtin_popcountll(i & mask); return cd(std::cos(x), std::sin(x)); });
        }
        return "PhaseRootN";
    }
    say(std::string(w == 2 ? "QFT" : "IQFT") + " sim " + std::to_string(s.sid) + " " + join(ci));
    (w == 2 ? ::QFT : ::IQFT)(s.sid, ci.size(), ci.data());
    refQFT(s.r, v, w == 3);
    return w == 2 ? "QFT" : "IQFT";
}

std::string Runner::arith(Sim& s)
{
    const int n = (int)s.ids.size();
    s.permuted = true;
    const int w = g.range(0, 13);
    const char* nm[] = { "ADD", "SUB", "MCADD", "MCSUB", "MUL", "DIV", "MULN", "POWN", "MCMUL", "LDA", "ADC", "SBC", "Hash", "MCPOWN" };
    vi all = g.pick(n, n);
    const bool ctl = w == 2 || w == 3 || w == 8 || w == 13;
    const int nc = ctl ? g.range(1, 2) : 0;
    if (w <= 3) {
        if (n < nc + 1) {
            return "";
        }
        const int len = g.range(1, n - nc);
        vi q(all.begin(), all.begin() + len), cv(all.begin() + len, all.begin() + len + nc);
        std::vector<uq> qi = idsOf(s, q), ci = idsOf(s, cv);
        uq a[2] = { g.below((u64)1 << len), 0 };
        const int na = g.chance(0.3) ? 2 : 1;
        if (na == 2) {
            a[1] = g.next();
        }
        say(std::string(nm[w]) + " sim " + std::to_string(s.sid) + " " + std::to_string(a[0]) + (na == 2 ? " (two words)" : "") + " to " + join(qi) + " controls " + join(ci));
        u64 cm = 0;
        for (int k : cv) {
            cm |= (u64)1 << k;
        }
        if (w == 0) {
            ::ADD(s.sid, na, a, len, qi.data());
        } else if (w == 1) {
            ::SUB(s.sid, na, a, len, qi.data());
        } else if (w == 2) {
            ::MCADD(s.sid, na, a, nc, ci.data(), len, qi.data());
        } else {
            ::MCSUB(s.sid, na, a, nc, ci.data(), len, qi.data());
        }
        s.r.permute([&](u64 i) { return (i & cm) != cm ? i : scatter(q, i, gather(q, i) + ((w & 1) ? -a[0] : a[0])); });
        return nm[w];
    }
    if (w == 12) {
        const int len = g.range(1, std::min(n, 6));
        vi q(all.begin(), all.begin() + len), p = g.pick(1 << len, 1 << len);
        std::vector<uq> qi = idsOf(s, q);
        std::vector<unsigned char> t(p.begin(), p.end());
        say("Hash sim " + std::to_string(s.sid) + " " + join(qi));
        ::Hash(s.sid, len, qi.data(), t.data());
        s.r.permute([&](u64 i) { return scatter(q, i, p[gather(q, i)]); });
        return nm[w];
    }
    if (w >= 9 && w <= 11) {
        const int ex = w == 9 ? 0 : 1;
        if (n < 2 + ex) {
            return "";
        }
        const int il = g.range(1, std::min(3, n - 1 - ex)), vl = g.range(1, n - il - ex);
        vi ia(all.begin(), all.begin() + il), va(all.begin() + il, all.begin() + il + vl);
        const int cy = ex ? all[il + vl] : 0;
        std::vector<unsigned char> t;
        for (int i = 0; i < (1 << il); ++i) {
            t.push_back((unsigned char)g.below((u64)1 << vl));
        }
        std::vector<uq> ii = idsOf(s, ia), vv = idsOf(s, va);
        bool cin = false;
        if (w == 9) {
            for (int q : va) {
                measureTo0(s, q);
                if (bad) {
                    return nm[w];
                }
            }
        } else {
            cin = ::M(s.sid, s.ids[cy]);
            observe(s, "M", (u64)1 << cy, cin ? (u64)1 << cy : 0);
            if (bad) {
                return nm[w];
            }
        }
        say(std::string(nm[w]) + " sim " + std::to_string(s.sid) + " index " + join(ii) + " value " + join(vv) + (ex ? " carry " + std::to_string(s.ids[cy]) : ""));
        if (w == 9) {
            ::LDA(s.sid, il, ii.data(), vl, vv.data(), t.data());
            s.r.permute([&](u64 i) { return scatter(va, i, t[gather(ia, i)]); });
        } else {
            (w == 10 ? ::ADC : ::SBC)(s.sid, s.ids[cy], il, ii.data(), vl, vv.data(), t.data());
            s.r.permute([&](u64 i) {
                const u64 v = gather(va, i), e = t[gather(ia, i)];
                const u64 x = w == 10 ? v + e + (cin ? 1 : 0) : v + ((u64)1 << vl) - e - (cin ? 0 : 1);
                return scatter(va, i, x & (((u64)1 << vl) - 1)) & ~((u64)1 << cy) | (((x >> vl) & 1) << cy);
            });
        }
        return nm[w];
    }
    // in -> in, out
    if (n < 2 + nc) {
        return "";
    }
    const int len = g.range(1, (n - nc) / 2);
    vi q(all.begin(), all.begin() + len), o(all.begin() + len, all.begin() + 2 * len), cv(all.begin() + 2 * len, all.begin() + 2 * len + nc);
    std::vector<uq> qi = idsOf(s, q), oi = idsOf(s, o), ci = idsOf(s, cv);
    u64 cm = 0;
    for (int k : cv) {
        cm |= (u64)1 << k;
    }
    for (int k : o) {
        measureTo0(s, k);
        if (bad) {
            return nm[w];
        }
    }
    const u64 lm = ((u64)1 << len) - 1;
    uq a[1] = { 1 + g.below(lm) }, m[1] = { (u64)1 << len };
    if (a[0] > lm) {
        a[0] = 1;
    }
    say(std::string(nm[w]) + " sim " + std::to_string(s.sid) + " a=" + std::to_string(a[0]) + " in " + join(qi) + " out " + join(oi) + " controls " + join(ci));
    auto powm = [&](u64 b, u64 e) {
        u64 r = 1;
        for (u64 k = 0; k < e; ++k) {
            r = (r * b) & lm;
        }
        return r;
    };
    switch (w) {
    case 4:
    case 5: {
        ::MUL(s.sid, 1, a, len, qi.data(), oi.data());
        if (w == 5) {
            say("DIV of the same");
            ::DIV(s.sid, 1, a, len, qi.data(), oi.data());
        } else {
            s.r.permute([&](u64 i) { const u64 x = gather(q, i) * a[0]; return scatter(o, scatter(q, i, x & lm), x >> len); });
        }
        break;
    }
    case 6:
        ::MULN(s.sid, 1, a, m, len, qi.data(), oi.data());
        s.r.permute([&](u64 i) { return scatter(o, i, gather(o, i) ^ ((gather(q, i) * a[0]) & lm)); });
        if (g.chance(0.5)) {
            say("DIVN of the same");
            ::DIVN(s.sid, 1, a, m, len, qi.data(), oi.data());
            s.r.permute([&](u64 i) { return scatter(o, i, gather(o, i) ^ ((gather(q, i) * a[0]) & lm)); });
        }
        break;
    case 7:
        ::POWN(s.sid, 1, a, m, len, qi.data(), oi.data());
        s.r.permute([&](u64 i) { return scatter(o, i, powm(a[0], gather(q, i))); });
        break;
    case 8:
        ::MCMUL(s.sid, 1, a, nc, ci.data(), len, qi.data(), oi.data());
        s.r.permute([&](u64 i) { const u64 x = gather(q, i) * a[0]; return (i & cm) != cm ? i : scatter(o, scatter(q, i, x & lm), x >> len); });
        break;
    default:
        ::MCPOWN(s.sid, 1, a, nc, ci.data(), m, len, qi.data(), oi.data());
        s.r.permute([&](u64 i) { return (i & cm) != cm ? i : scatter(o, i, powm(a[0], gather(q, i))); });
    }
    return nm[w];
}

std::string Runner::meas(Sim& s)
{
    const int n = (int)s.ids.size();
    const int w = g.range(0, 5);
    const double r2 = M_SQRT1_2;
    const cd h[4] = { r2, r2, r2, -r2 }, sg[4] = { 1, 0, 0, cd(0, 1) }, is[4] = { 1, 0, 0, cd(0, -1) };
    if (w == 0) {
        const int t = g.range(0, n - 1);
        const uq v = ::M(s.sid, s.ids[t]);
        say("M sim " + std::to_string(s.sid) + " id " + std::to_string(s.ids[t]) + " -> " + std::to_string(v));
        observe(s, "M", (u64)1 << t, v ? (u64)1 << t : 0);
        return "M";
    }
    if (w == 1) {
        const int t = g.range(0, n - 1);
        const double p = s.r.prob(t);
        const bool want = p > 0.98 ? true : p < 0.02 ? false : g.chance(0.5);
        const uq v = ::ForceM(s.sid, s.ids[t], want);
        say("ForceM sim " + std::to_string(s.sid) + " id " + std::to_string(s.ids[t]) + " to " + std::to_string(want) + " -> " + std::to_string(v));
        if ((bool)v != want) {
            fail("outcome:ForceM", "ForceM returned the other outcome");
            return "ForceM";
        }
        observe(s, "ForceM", (u64)1 << t, want ? (u64)1 << t : 0);
        return "ForceM";
    }
    if (w == 2 && !s.permuted && g.chance(0.3)) {
        const uq v = ::MAll(s.sid);
        say("MAll sim " + std::to_string(s.sid) + " -> " + std::to_string(v));
        if (v >> n) {
            fail("outcome:MAll", "MAll returned bits beyond its qubits");
            return "MAll";
        }
        observe(s, "MAll", ((u64)1 << n) - 1, v);
        return "MAll";
    }
    if (w == 3) {
        vi v = g.pick(n, g.range(1, n));
        std::vector<uq> ci = idsOf(s, v);
        std::vector<uq> out(20, 77777777);
        say("MeasureShots sim " + std::to_string(s.sid) + " " + join(ci));
        ::MeasureShots(s.sid, ci.size(), ci.data(), out.size(), out.data());
        u64 mask = 0;
        for (int q : v) {
            mask |= (u64)1 << q;
        }
        for (uq o : out) {
            if (o >> v.size()) {
                fail("outcome:MeasureShots", "MeasureShots of " + std::to_string(v.size()) + " qubits returned " + std::to_string(o));
                break;
            }
            const double p = s.r.probMask(mask, scatter(v, 0, o));
            if (!(p > P_IMPOSSIBLE)) {
                fail("outcome:MeasureShots", "MeasureShots of " + join(ci) + " returned " + std::to_string(o) + ", of probability " + f2s(p));
                break;
            }
        }
        c.cnt["shots"] += 20;
        return "MeasureShots";
    }
    // joint Pauli measurement
    vi v = g.pick(n, g.range(1, std::min(n, 4)));
    std::vector<int> b;
    const int pa[] = { 0, 1, 3, 2 };
    bool any = false;
    std::vector<uq> ci = idsOf(s, v);
    u64 mask = 0;
    Ref& r = s.r;
    std::string pl;
    for (size_t i = 0; i < v.size(); ++i) {
        const int x = g.range(0, 3);
        b.push_back(pa[x]);
        pl += std::to_string(pa[x]);
        any |= x;
        mask |= x ? (u64)1 << v[i] : 0;
    }
    if (!any) {
        return "";
    }
    auto fwd = [&](Ref& q) {
        for (size_t i = 0; i < v.size(); ++i) {
            if (b[i] == 3) {
                q.mtrx(is, v[i]);
            }
            if (b[i] == 1 || b[i] == 3) {
                q.mtrx(h, v[i]);
            }
        }
    };
    Ref t = r;
    fwd(t);
    if (w == 4) {
        say("JointEnsembleProbability sim " + std::to_string(s.sid) + " paulis " + pl + " on " + join(ci));
        const double p = ::JointEnsembleProbability(s.sid, v.size(), b.data(), ci.data());
        if (std::fabs(p - t.probParity(mask)) > 3e-3) {
            fail("value:JointEnsembleProbability", "JointEnsembleProbability is " + f2s(p) + ", the state says " + f2s(t.probParity(mask)));
        }
        return "JointEnsembleProbability";
    }
    const uq o = ::Measure(s.sid, v.size(), b.data(), ci.data());
    say("Measure sim " + std::to_string(s.sid) + " paulis " + pl + " on " + join(ci) + " -> " + std::to_string(o));
    const double p1 = t.probParity(mask), p = o == 1 ? p1 : o == 0 ? 1 - p1 : 0;
    if (!likely(p, "Measure")) {
        return "Measure";
    }
    t.projectParity(mask, o);
    for (size_t i = 0; i < v.size(); ++i) {
        if (b[i] == 1 || b[i] == 3) {
            t.mtrx(h, v[i]);
        }
        if (b[i] == 3) {
            t.mtrx(sg, v[i]);
        }
    }
    r = t;
    return "Measure";
}

std::string Runner::query(Sim& s)
{
    const int n = (int)s.ids.size();
    const int w = g.range(0, 7);
    vi v = g.pick(n, g.range(1, std::min(n, 4)));
    std::vector<uq> ci = idsOf(s, v);
    u64 mask = 0;
    for (int q : v) {
        mask |= (u64)1 << q;
    }
    const char* nm[] = { "Prob", "PermutationProb", "PermutationExpectation", "Variance", "FactorizedExpectation", "FactorizedExpectationFp", "ProbAll", "TrySeparate" };
    auto cmp = [&](double got, double want, double tol) {
        ++c.cnt["queries"];
        if (!(std::fabs(got - want) < tol)) {
            fail(std::string("value:") + nm[w], std::string(nm[w]) + " of " + join(ci) + " is " + f2s(got) + ", the state says " + f2s(want));
        }
    };
    say(std::string(nm[w]) + " sim " + std::to_string(s.sid) + " " + join(ci));
    const double big = (double)((u64)1 << v.size());
    if (w == 0) {
        cmp(::Prob(s.sid, ci[0]), s.r.prob(v[0]), 3e-3);
    } else if (w == 1) {
        std::unique_ptr<bool[]> b(new bool[v.size()]);
        u64 val = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            b[i] = g.chance(0.5);
            val |= b[i] ? (u64)1 << v[i] : 0;
        }
        cmp(::PermutationProb(s.sid, v.size(), ci.data(), b.get()), s.r.probMask(mask, val), 3e-3);
    } else if (w <= 5) {
        std::vector<uq> wi;
        std::vector<capiReal> wf;
        for (size_t i = 0; i < 2 * v.size(); ++i) {
            wi.push_back(g.below(9));
            wf.push_back((capiReal)g.uni(-3, 3));
        }
        double e1 = 0, e2 = 0;
        for (u64 i = 0; i < s.r.dim(); ++i) {
            const double p = std::norm(s.r.v[i]);
            double x = 0;
            if (w <= 3) {
                x = (double)gather(v, i);
            } else {
                for (size_t k = 0; k < v.size(); ++k) {
                    const size_t j = 2 * k + ((i >> v[k]) & 1);
                    x += w == 4 ? (double)wi[j] : (double)wf[j];
                }
            }
            e1 += p * x;
            e2 += p * x * x;
        }
        if (w == 2) {
            cmp(::PermutationExpectation(s.sid, v.size(), ci.data()), e1, 3e-3 * big);
        } else if (w == 3) {
            cmp(::Variance(s.sid, v.size(), ci.data()), e2 - e1 * e1, 3e-3 * big * big);
        } else if (w == 4) {
            cmp(::FactorizedExpectation(s.sid, v.size(), ci.data(), 1, wi.data()), e1, 3e-3 * 40);
        } else {
            cmp(::FactorizedExpectationFp(s.sid, v.size(), ci.data(), wf.data()), e1, 3e-3 * 20);
        }
    } else if (w == 6) {
        std::vector<capiReal> p((size_t)1 << v.size());
        ::ProbAll(s.sid, v.size(), ci.data(), p.data());
        for (u64 k = 0; k < p.size(); ++k) {
            cmp(p[k], s.r.probMask(mask, scatter(v, 0, k)), 3e-3);
        }
    } else {
        if (s.type == 0 || s.type == 1) {
            const bool got = v.size() == 1 ? ::TrySeparate1Qb(s.sid, ci[0]) : v.size() == 2 ? ::TrySeparate2Qb(s.sid, ci[0], ci[1]) : ::TrySeparateTol(s.sid, v.size(), ci.data(), 1e-6);
            (void)got;
        }
    }
    return nm[w];
}

std::string Runner::structure(size_t& si)
{
    Sim& s = sims[si];
    const int n = (int)s.ids.size();
    const int w = g.range(0, 8);
    switch (w) {
    case 0: {
        if (n >= 7) {
            return "";
        }
        const uq id = newId(s);
        say("allocateQubit sim " + std::to_string(s.sid) + " id " + std::to_string(id));
        ::allocateQubit(s.sid, id);
        s.r.compose(Ref(1), n);
        s.ids.push_back(id);
        return "allocateQubit";
    }
    case 1: {
        const int t = g.range(0, n - 1);
        if (sims.size() == 1 && n == 1) {
            return "";
        }
        bool zero = true;
        if (g.chance(0.7)) {
            measureTo0(s, t);
        } else {
            const bool v = ::M(s.sid, s.ids[t]);
            observe(s, "M", (u64)1 << t, v ? (u64)1 << t : 0);
            zero = !v;
        }
        if (bad) {
            return "release";
        }
        say("release sim " + std::to_string(s.sid) + " id " + std::to_string(s.ids[t]) + (zero ? " in |0>" : " in |1>"));
        const bool ok = ::release(s.sid, s.ids[t]);
        if (ok != zero) {
            fail("value:release", std::string("release returned ") + (ok ? "true" : "false") + " for a qubit in |" + (zero ? "0>" : "1>"));
            return "release";
        }
        Ref part(1);
        s.r.split(t, 1, part);
        s.ids.erase(s.ids.begin() + t);
        return "release";
    }
    case 2: {
        if (sims.size() >= 3) {
            return "";
        }
        const uq k = fresh(0, ::init_clone(s.sid), "init_clone");
        say("init_clone sim " + std::to_string(s.sid) + " -> " + std::to_string(k));
        for (auto& o : sims) {
            if (o.sid == k) {
                fail("sid", "init_clone returned an ID in use");
                return "init_clone";
            }
        }
        Sim t = s;
        t.sid = k;
        maxSid = std::max<size_t>(maxSid, k + 1);
        sims.push_back(t);
        si = sims.size() - 1;
        return "init_clone";
    }
    case 3: {
        if (sims.size() < 2) {
            return "";
        }
        say("destroy sim " + std::to_string(s.sid));
        kill(0, s.sid);
        sims.erase(sims.begin() + si);
        si = g.below(sims.size());
        return "destroy";
    }
    case 4: {
        if (sims.size() >= 3) {
            return "";
        }
        addSim(g.range(1, 5), g.range(0, NTYPES - 1));
        si = sims.size() - 1;
        return "init";
    }
    case 5: { // Compose
        for (size_t k = 0; k < sims.size(); ++k) {
            Sim& o = sims[k];
            if (k == si || o.permuted || o.type != s.type || o.none() || (int)o.ids.size() + n > 8 || s.type >= 2) {
                continue;
            }
            std::vector<uq> ids;
            Sim tmp = s;
            for (size_t j = 0; j < o.ids.size(); ++j) {
                ids.push_back(newId(tmp));
                tmp.ids.push_back(ids.back());
            }
            say("Compose sim " + std::to_string(s.sid) + " with " + std::to_string(o.sid) + " as " + join(ids));
            ::Compose(s.sid, o.sid, ids.data());
            s.r.compose(o.r, n);
            s.ids.insert(s.ids.end(), ids.begin(), ids.end());
            return "Compose";
        }
        return "";
    }
    case 6:
    case 7: { // Decompose / Dispose of a separable subset
        if (n < 2 || s.type >= 2) {
            return "";
        }
        const int k = g.range(1, std::min(3, n - 1));
        vi v = g.pick(n, k);
        // arrange the model so that the subset is at the end, in order
        vi rest;
        for (int i = 0; i < n; ++i) {
            if (std::find(v.begin(), v.end(), i) == v.end()) {
                rest.push_back(i);
            }
        }
        auto arrange = [&](const Ref& r) {
            Ref t(n);
            for (u64 i = 0; i < r.dim(); ++i) {
                u64 j = 0;
                for (size_t a = 0; a < rest.size(); ++a) {
                    j |= ((i >> rest[a]) & 1) << a;
                }
                for (size_t a = 0; a < v.size(); ++a) {
                    j |= ((i >> v[a]) & 1) << (rest.size() + a);
                }
                t.v[j] = r.v[i];
            }
            return t;
        };
        Ref t = arrange(s.r), part(0);
        if (!t.split(n - k, k, part)) {
            for (int q : v) {
                const bool o = ::M(s.sid, s.ids[q]);
                observe(s, "M", (u64)1 << q, o ? (u64)1 << q : 0);
                if (bad) {
                    return "M";
                }
            }
            t = arrange(s.r);
            if (!t.split(n - k, k, part)) {
                return "";
            }
        }
        std::vector<uq> ids = idsOf(s, v);
        const bool dec = w == 6 && sims.size() < 3;
        std::vector<uq> left = idsOf(s, rest);
        say(std::string(dec ? "Decompose" : "Dispose") + " sim " + std::to_string(s.sid) + " " + join(ids));
        if (dec) {
            Sim d;
            d.type = s.type;
            s.r = t;
            s.ids = left;
            s.permuted = true;
            d.sid = fresh(0, ::Decompose(s.sid, k, ids.data()), "Decompose");
            say("-> " + std::to_string(d.sid));
            for (auto& o : sims) {
                if (o.sid == d.sid) {
                    fail("sid", "Decompose returned an ID in use");
                    return "Decompose";
                }
            }
            d.r = part;
            for (int i = 0; i < k; ++i) {
                d.ids.push_back(i);
            }
            maxSid = std::max<size_t>(maxSid, d.sid + 1);
            const size_t old = si;
            sims.push_back(d);
            check(sims[old], "Decompose (remainder)");
            si = sims.size() - 1;
            return "Decompose";
        }
        ::Dispose(s.sid, k, ids.data());
        s.r = t;
        s.ids = left;
        s.permuted = true;
        return "Dispose";
    }
    default: {
        if (g.chance(0.4)) {
            say("ResetAll sim " + std::to_string(s.sid));
            ::ResetAll(s.sid);
            s.r = Ref(n);
            return "ResetAll";
        }
        if (s.permuted) {
            return "";
        }
        std::vector<capiReal> ket;
        for (u64 i = 0; i < s.r.dim(); ++i) {
            s.r.v[i] = g.chance(0.4) ? cd(0) : cd(g.gauss(), g.gauss());
        }
        if (s.r.norm2() < 1e-6) {
            s.r.v[0] = 1;
        }
        s.r.normalize();
        for (u64 i = 0; i < s.r.dim(); ++i) {
            ket.push_back((capiReal)s.r.v[i].real());
            ket.push_back((capiReal)s.r.v[i].imag());
        }
        say("InKet sim " + std::to_string(s.sid));
        ::InKet(s.sid, ket.data());
        return "InKet";
    }
    }
}

std::string Runner::circuit(Sim* s)
{
    if (circs.size() < 2 && g.chance(0.6)) {
        Circ k;
        k.collapse = g.chance(0.6);
        k.cid = fresh(1, ::init_qcircuit(k.collapse, false), "init_qcircuit");
        say("init_qcircuit collapse=" + std::to_string(k.collapse) + " -> " + std::to_string(k.cid));
        for (auto& o : circs) {
            if (o.cid == k.cid) {
                fail("cid", "init_qcircuit returned an ID in use");
                return "init_qcircuit";
            }
        }
        circs.push_back(k);
    }
    if (circs.empty()) {
        return "";
    }
    Circ& k = circs[g.below(circs.size())];
    const int w = g.range(0, 9);
    const int N = 5;
    if (w <= 4) {
        const int reps = g.range(1, 4);
        for (int j = 0; j < reps; ++j) {
            GateRec e;
            double d[8];
            e.swap = false;
            uni(d, e.m, g.chance(0.4));
            if (g.chance(0.3)) {
                const double xs[8] = { 0, 0, 1, 0, 1, 0, 0, 0 };
                std::copy(xs, xs + 8, d);
                for (int i = 0; i < 4; ++i) {
                    e.m[i] = cd(d[2 * i], d[2 * i + 1]);
                }
            }
            const int nc = g.range(0, 3);
            vi v = g.pick(N, nc + 1);
            e.t = v.back();
            v.pop_back();
            e.ctrl = v;
            e.perm = g.below((u64)1 << nc);
            std::vector<uq> ci(v.begin(), v.end());
            if (g.chance(0.1)) {
                say("qcircuit_swap " + std::to_string(k.cid));
                vi p = g.pick(N, 2);
                ::qcircuit_swap(k.cid, p[0], p[1]);
                e.swap = true;
                e.ctrl = { p[0] };
                e.t = p[1];
            } else if (nc == 0 && g.chance(0.7)) {
                say("qcircuit_append_1qb " + std::to_string(k.cid) + " t" + std::to_string(e.t));
                ::qcircuit_append_1qb(k.cid, d, e.t);
            } else {
                say("qcircuit_append_mc " + std::to_string(k.cid) + " c" + join(ci) + " perm " + std::to_string(e.perm) + " t" + std::to_string(e.t));
                ::qcircuit_append_mc(k.cid, d, nc, ci.data(), e.t, e.perm);
            }
            k.gates.push_back(e);
        }
        return "qcircuit_append";
    }
    if (w <= 6 && s) {
        int need = 0;
        for (auto& e : k.gates) {
            need = std::max(need, e.t + 1);
            for (int q : e.ctrl) {
                need = std::max(need, q + 1);
            }
        }
        if (s->permuted || (int)s->ids.size() < need || s->type == 3) {
            return "";
        }
        say("qcircuit_run " + std::to_string(k.cid) + " on sim " + std::to_string(s->sid));
        ::qcircuit_run(k.cid, s->sid);
        for (auto& e : k.gates) {
            if (e.swap) {
                const cd sw[16] = { 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1 };
                s->r.mtrx4(vi(), 0, sw, e.ctrl[0], e.t);
            } else {
                s->r.mtrx(e.ctrl, e.perm, e.m, e.t);
            }
        }
        ++c.cnt["circuits run"];
        return "qcircuit_run";
    }
    if (w == 7 && circs.size() < 4) {
        Circ o = k;
        const bool inv = g.chance(0.5);
        o.cid = fresh(1, inv ? ::qcircuit_inverse(k.cid) : ::init_qcircuit_clone(k.cid), "a circuit copy");
        say(std::string(inv ? "qcircuit_inverse " : "init_qcircuit_clone ") + std::to_string(k.cid) + " -> " + std::to_string(o.cid));
        if (inv) {
            std::reverse(o.gates.begin(), o.gates.end());
            for (auto& e : o.gates) {
                const cd q[4] = { std::conj(e.m[0]), std::conj(e.m[2]), std::conj(e.m[1]), std::conj(e.m[3]) };
                std::copy(q, q + 4, e.m);
            }
        }
        for (auto& x : circs) {
            if (x.cid == o.cid) {
                fail("cid", "a copied circuit got an ID in use");
                return "qcircuit copy";
            }
        }
        circs.push_back(o);
        return "qcircuit copy";
    }
    if (w == 8 && circs.size() > 1) {
        const size_t i = g.below(circs.size());
        say("destroy_qcircuit " + std::to_string(circs[i].cid));
        kill(1, circs[i].cid);
        circs.erase(circs.begin() + i);
        return "destroy_qcircuit";
    }
    // through a file or a string into another circuit
    const size_t len = ::qcircuit_out_to_string_length(k.cid);
    std::vector<char> buf(len + 64, '#');
    ::qcircuit_out_to_string(k.cid, buf.data());
    if (strnlen(buf.data(), buf.size()) + 1 != len || buf[len] != '#') {
        fail("value:qcircuit_out_to_string", "qcircuit_out_to_string writes " + std::to_string(strnlen(buf.data(), buf.size()) + 1) + " bytes, but qcircuit_out_to_string_length said " + std::to_string(len));
        return "qcircuit_out_to_string";
    }
    const char* dir = getenv("VF_TMP");
    const std::string fn = std::string(dir ? dir : "/tmp") + "/capi." + std::to_string((long)getpid()) + "." + std::to_string((unsigned long)(size_t)this) + ".qc";
    std::vector<char> f(fn.begin(), fn.end());
    f.push_back(0);
    ::qcircuit_out_to_file(k.cid, f.data());
    Circ o = k;
    o.cid = fresh(1, ::init_qcircuit(k.collapse, false), "init_qcircuit");
    say("circuit " + std::to_string(k.cid) + " through a file into " + std::to_string(o.cid));
    ::qcircuit_in_from_file(o.cid, f.data());
    ::unlink(fn.c_str());
    if (circs.size() < 4) {
        circs.push_back(o);
    } else {
        kill(1, o.cid);
    }
    ++c.cnt["circuit files"];
    return "qcircuit file";
}

void Runner::run()
{
    quietCout();
    addSim(g.range(1, 5), g.range(0, NTYPES - 1));
    if (bad) {
        return;
    }
    const int ops = g.range(10, 60);
    u64 ph = 0;
    const double wa = g.chance(0.3) ? 0.25 : 0.05;
    for (int i = 0; i < ops && !bad; ++i) {
        if (extra) {
            extra();
            if (bad) {
                break;
            }
        }
        size_t k = g.below(sims.size());
        const double u = g.unit();
        std::string what;
        if (sims[k].none()) {
            // all qubits released: calls are ignored until a qubit is allocated
            const uq id = g.below(400);
            say("allocateQubit sim " + std::to_string(sims[k].sid) + " id " + std::to_string(id));
            ::allocateQubit(sims[k].sid, id);
            sims[k].r = Ref(1);
            sims[k].ids = { id };
            sims[k].permuted = false;
            what = "allocateQubit";
        } else if (u < wa && sims[k].type < 2) {
            what = arith(sims[k]);
        } else if (u < 0.35) {
            what = structure(k);
        } else if (u < 0.45) {
            what = meas(sims[k]);
        } else if (u < 0.55) {
            what = query(sims[k]);
        } else if (u < 0.65) {
            what = circuit(&sims[k]);
        } else {
            what = gate(sims[k]);
        }
        if (what.empty()) {
            continue;
        }
        ++c.cnt["calls"];
        ++c.cnt["call:" + what];
        ph = mix(ph, hashStr(c.log.back()));
        if (!bad && !sims[k].none() && err(sims[k], what)) {
            break;
        }
        if (!bad && (g.chance(0.4) || getenv("VF_ALWAYS"))) {
            check(sims[k], what);
        }
    }
    for (auto& s : sims) {
        if (!bad) {
            err(s, "end");
            check(s, "end");
        }
    }
    c.programs.insert(ph);
    for (auto& s : sims) {
        kill(0, s.sid);
    }
    for (auto& k : circs) {
        kill(1, k.cid);
    }
    // destroyed IDs are used again: the number of live IDs is bounded by the number of simulators alive at once
    if (!bad && alone && maxSid > 5) {
        fail("sid", "simulator IDs are not reused: ID " + std::to_string(maxSid - 1) + " was given with at most 4 simulators alive");
    }
}
// Threads with simulators and circuits of their own, which also share one simulator: each thread acts on two of its qubits.
static void concurrent(Case& c)
{
    quietCout();
    Rng& g = c.g;
    const int T = g.range(2, 4);
    Sim shared;
    shared.type = g.range(0, 1);
    Runner boss(c);
    boss.alone = false;
    shared.sid = boss.fresh(0, boss.initSim(2 * T, shared.type), "init");
    for (int i = 0; i < 2 * T; ++i) {
        shared.ids.push_back(i);
    }
    c.log.push_back("threads " + std::to_string(T) + " share sim " + std::to_string(shared.sid) + " of type " + std::to_string(shared.type));
    struct Th {
        std::map<std::string, long> cnt;
        std::unordered_set<u64> st, pr;
        std::unique_ptr<Case> cs;
        std::unique_ptr<Runner> r;
        Ref own{ 2 };
        u64 calls = 0;
        size_t top = 0;
    };
    std::vector<Th> th(T);
    std::atomic<int> ready(0);
    std::atomic<u64> clock(0);
    std::vector<std::vector<u64>> stamps(T);
    for (int t = 0; t < T; ++t) {
        th[t].cs.reset(new Case(g.next(), t, 77, th[t].cnt, th[t].st, th[t].pr));
        th[t].r.reset(new Runner(*th[t].cs));
        Runner& r = *th[t].r;
        r.alone = false;
        r.extra = [&, t]() {
            Rng& q = r.g;
            const uq sid = shared.sid;
            uq a = 2 * t, b = 2 * t + 1;
            int A = 0, B = 1;
            if (q.chance(0.5)) {
                std::swap(a, b);
                std::swap(A, B);
            }
            ++th[t].calls;
            stamps[t].push_back(clock++);
            if (q.chance(0.2)) {
                std::this_thread::yield();
            }
            switch (q.range(0, 7)) {
            case 0:
            case 1: {
                const double th0 = q.uni(0.1, 3), ph = q.uni(-3, 3), la = q.uni(-3, 3);
                ::U(sid, a, th0, ph, la);
                auto ex = [](double z) { return cd(std::cos(z), std::sin(z)); };
                const cd m[4] = { std::cos(th0 / 2), -ex(la) * std::sin(th0 / 2), ex(ph) * std::sin(th0 / 2), ex(ph + la) * std::cos(th0 / 2) };
                th[t].own.mtrx(m, A);
                break;
            }
            case 2: {
                uq ctl[1] = { a };
                ::MCX(sid, 1, ctl, b);
                th[t].own.permute([&](u64 i) { return ((i >> A) & 1) ? i ^ ((u64)1 << B) : i; });
                break;
            }
            case 3:
                ::SWAP(sid, a, b);
                th[t].own.permute([](u64 i) { return ((i & 1) << 1) | (i >> 1); });
                break;
            case 4: {
                const bool o = ::M(sid, a);
                const double p = th[t].own.prob(A);
                if (!r.likely(o ? p : 1 - p, "M of a shared simulator")) {
                    break;
                }
                th[t].own.project((u64)1 << A, o ? (u64)1 << A : 0);
                break;
            }
            case 5: {
                const double p = ::Prob(sid, a);
                if (std::fabs(p - th[t].own.prob(A)) > 3e-3) {
                    r.fail("value:Prob", "Prob of a shared simulator is " + f2s(p) + ", not " + f2s(th[t].own.prob(A)));
                }
                break;
            }
            case 6: {
                const uq k = r.fresh(0, ::init_clone(sid), "init_clone");
                if (r.bad) {
                    break;
                }
                const double p = ::Prob(k, a);
                if (std::fabs(p - th[t].own.prob(A)) > 3e-3) {
                    r.fail("value:Prob", "Prob of a clone of a shared simulator is " + f2s(p) + ", not " + f2s(th[t].own.prob(A)));
                }
                r.maxSid = std::max<size_t>(r.maxSid, k + 1);
                r.kill(0, k);
                break;
            }
            default: {
                // a new qubit of the shared simulator, in |1>, that goes away again
                const uq id = 100 + t;
                ::allocateQubit(sid, id);
                ::X(sid, id);
                if (!(std::fabs(::Prob(sid, id) - 1) < 3e-3)) {
                    r.fail("value:Prob", "a qubit allocated in a shared simulator and flipped is not |1>");
                }
                ::X(sid, id);
                if (!::release(sid, id)) {
                    r.fail("value:release", "release of a qubit in |0> returned false");
                }
            }
            }
        };
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) {
        ts.emplace_back([&, t]() {
            ++ready;
            while (ready < T) {
            }
            th[t].r->run();
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    u64 order = 0;
    std::vector<std::pair<u64, int>> ev;
    shared.r = Ref(0);
    size_t maxSid = 0;
    for (int t = 0; t < T; ++t) {
        for (auto& e : th[t].cnt) {
            c.cnt[e.first] += e.second;
        }
        c.cnt["calls on a shared simulator"] += th[t].calls;
        for (u64 s : stamps[t]) {
            ev.push_back({ s, t });
        }
        c.states.insert(th[t].st.begin(), th[t].st.end());
        if (!th[t].cs->violation.empty()) {
            for (auto& l : th[t].cs->log) {
                c.log.push_back("thread " + std::to_string(t) + ": " + l);
            }
            c.fail("conc:" + th[t].cs->key, "in thread " + std::to_string(t) + " of " + std::to_string(T) + ": " + th[t].cs->violation);
        }
        boss.bad |= th[t].r->bad;
        shared.r.compose(th[t].own, shared.r.n);
        maxSid = std::max(maxSid, th[t].r->maxSid);
    }
    std::sort(ev.begin(), ev.end());
    long switches = 0;
    for (size_t i = 0; i < ev.size(); ++i) {
        order = mix(order, ev[i].second + 1);
        switches += i && ev[i].second != ev[i - 1].second;
    }
    c.cnt["switches between threads"] += switches;
    c.programs.insert(mix(order, c.g.next()));
    shared.permuted = true;
    if (!boss.bad) {
        boss.err(shared, "shared use");
    }
    boss.check(shared, "shared use");
    if (!boss.bad && maxSid > (size_t)(5 * T + 1)) {
        c.fail("sid", "simulator IDs are not reused: ID " + std::to_string(maxSid - 1) + " was given to one of " + std::to_string(T) + " threads");
    }
    // the simulator is destroyed while others call it: every call before, and nothing after that, has an effect
    std::atomic<bool> go(false);
    ts.clear();
    for (int t = 0; t < T; ++t) {
        const u64 sd = g.next();
        ts.emplace_back([&, t, sd]() {
            Rng q(sd);
            while (!go) {
            }
            for (int i = 0; i < 12; ++i) {
                switch (q.range(0, 4)) {
                case 0:
                    ::H(shared.sid, 2 * t);
                    break;
                case 1: {
                    uq ctl[1] = { (uq)(2 * t) };
                    ::MCX(shared.sid, 1, ctl, 2 * t + 1);
                    break;
                }
                case 2:
                    ::Prob(shared.sid, 2 * t);
                    break;
                case 3:
                    ::M(shared.sid, 2 * t + 1);
                    break;
                default:
                    ::num_qubits(shared.sid);
                }
            }
        });
    }
    go = true;
    for (u64 k = g.below(200); k > 0; --k) {
        std::this_thread::yield();
    }
    boss.kill(0, shared.sid);
    for (auto& t : ts) {
        t.join();
    }
    if (c.violation.empty() && ::num_qubits(shared.sid) != 0) {
        c.fail("conc:destroy", "a destroyed simulator still has qubits");
    }
    c.cnt["destroyed in use"] += 1;
}
} // namespace
static RegCheck rConc("capi-conc", concurrent);
static RegCheck rCapi("capi", [](Case& c) {
    Runner r(c);
    r.run();
});
} // namespace vf
