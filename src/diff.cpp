// Differential monitor: a random program runs on the real simulator and on the independent dense model; after operations
// the simulator's observable state is compared with the model's.
#include "harness.hpp"
#include <atomic>
#include <thread>
namespace vf {
u64 stateHash(const std::vector<cd>& v)
{
    size_t big = 0;
    double best = -1;
    for (size_t i = 0; i < v.size(); ++i) {
        if (std::norm(v[i]) > best + 1e-4) {
            best = std::norm(v[i]);
            big = i;
        }
    }
    const cd ph = best > 0 ? std::conj(v[big]) / std::abs(v[big]) : cd(1);
    u64 h = v.size();
    for (size_t i = 0; i < v.size(); ++i) {
        const cd a = v[i] * ph;
        const long re = lround(a.real() * 200), im = lround(a.imag() * 200);
        if (re || im) {
            h = (h ^ (u64)(i * 1000003 + re * 1009 + im)) * 0x9E3779B97F4A7C15ULL;
            h ^= h >> 29;
        }
    }
    return h;
}

std::string compareQ(QInterfacePtr q, const Ref& r, int how, double tol)
{
    if ((int)q->GetQubitCount() != r.n) {
        return "the simulator has " + std::to_string((int)q->GetQubitCount()) + " qubits instead of " + std::to_string(r.n);
    }
    std::vector<cd> s;
    if (how == 0) {
        s = readState(q->Clone());
    } else {
        s = readState(q);
    }
    double no = 0;
    for (const cd& a : s) {
        if (!std::isfinite(a.real()) || !std::isfinite(a.imag())) {
            return "the state vector has a non-finite amplitude";
        }
        no += std::norm(a);
    }
    if (std::fabs(no - 1) > 4e-3) {
        return "the state vector has squared norm " + f2s(no);
    }
    const double f = r.fidelity(s);
    if (!(f > 1 - tol)) {
        return std::string("the state has fidelity ") + f2s(f) + " with the ideal state (" + (how == 0 ? "read from a clone)" : "read directly)");
    }
    return "";
}
static std::string compareState(Ctx& x, int how, double tol)
{
    std::string e = compareQ(x.q, x.r, how, tol);
    for (size_t i = 0; i < x.kept.size() && e.empty() && (how < 0 || x.kept.size() < 4); ++i) {
        e = compareQ(x.kept[i].first, x.kept[i].second, how, tol);
        if (!e.empty()) {
            e = "of a kept clone, " + e;
        }
        ++x.cnt["kept_clones_compared"];
    }
    return e;
}

struct Exec {
    Ctx x;
    std::string violation, key;
    bool unsupported = false;
};
static std::shared_ptr<qrack_rand_gen> rngFor(u64 s)
{
    auto r = std::make_shared<qrack_rand_gen>();
    r->seed((uint32_t)(s ^ (s >> 32)));
    return r;
}

struct Start {
    std::string stack;
    int n;
    u64 perm;
    bool randPhase, norm, sparse;
    u64 rseed;
    int maxN;
};
static void begin(Ctx& x, const Start& st, const Plan& p, u64 seed)
{
    auto rg = rngFor(st.rseed);
    x.stack = st.stack;
    x.maxN = st.maxN;
    x.r = Ref(st.n, st.perm);
    Rng g(seed);
    x.make = [st, rg, &p, seed](int n, u64 perm) {
        QInterfacePtr q = makeStack(st.stack, n, perm, rg, st.randPhase, st.norm, st.sparse);
        if (p.setup) {
            Rng g2(seed);
            p.setup(q, st.stack, g2);
        }
        return q;
    };
    x.q = x.make(st.n, st.perm);
}
// -> violation text
static std::string step(Ctx& x, const Op& o, const OpDef* d, int cmp, double tol, bool& unsupported)
{
    try {
        if (!d->run(x, o)) {
            unsupported = true;
            return "";
        }
    } catch (const std::exception& e) {
        return std::string("threw: ") + e.what();
    }
    if (!x.err.empty()) {
        return x.err;
    }
    if (cmp >= 0 && !x.stop) {
        try {
            ++x.cnt["states_compared"];
            return compareState(x, cmp, tol);
        } catch (const std::exception& e) {
            return std::string("reading the state threw: ") + e.what();
        }
    }
    return "";
}
static std::string replayOps(const Start& st, const Plan& p, const std::vector<std::pair<Op, int>>& ops, u64 seed, bool throwsOk,
    bool asRecorded = false)
{
    Ctx x;
    try {
        begin(x, st, p, seed);
    } catch (const std::exception&) {
        return "";
    }
    for (auto& e : ops) {
        const OpDef* d = findOp(e.first.name);
        bool un = false;
        // argument sanity after removal of earlier operations
        if (x.r.n < d->minN) {
            return "";
        }
        std::string v;
        try {
            v = step(x, e.first, d, asRecorded ? e.second : 0, p.tol, un);
        } catch (...) {
            return "";
        }
        if (v.empty() && x.stop) {
            return "";
        }
        if (!v.empty()) {
            return !throwsOk && v.find("threw") != std::string::npos ? "" : v;
        }
    }
    if (asRecorded) {
        try {
            return compareState(x, 0, p.tol);
        } catch (...) {
        }
    }
    return "";
}

// The same operations from the same seed, perhaps while other threads keep the processors busy
static std::string twinRun(const Ctx& x, const Start& st, const Plan& p, u64 seed, const std::vector<std::pair<Op, int>>& ops, bool busy)
{
    std::atomic<bool> end{ false };
    std::vector<std::thread> load;
    for (int i = 0; i < (busy ? 2 : 0); ++i) {
        load.emplace_back([&end]() {
            while (!end) {
                for (volatile int k = 0; k < 20000; k = k + 1) {
                }
                std::this_thread::yield();
            }
        });
    }
    struct Join {
        std::atomic<bool>& e;
        std::vector<std::thread>& l;
        ~Join()
        {
            e = true;
            for (auto& t : l) {
                t.join();
            }
        }
    } join{ end, load };
    Ctx y;
    begin(y, st, p, seed);
    for (auto& e : ops) {
        bool un = false;
        const std::string v = step(y, e.first, findOp(e.first.name), e.second, p.tol, un);
        if (!v.empty()) {
            return "the second run: " + v;
        }
        if (y.trace != x.trace.substr(0, y.trace.size())) {
            return "the second run from the same seed gives other samples in " + e.first.name;
        }
        if (y.stop) {
            break;
        }
    }
    if (y.trace != x.trace || y.stop != x.stop) {
        return "the second run from the same seed gives other samples";
    }
    if (y.r.n != x.r.n) {
        return "the second run from the same seed ends with another number of qubits";
    }
    for (size_t i = 0; i < x.r.v.size(); ++i) {
        if (std::abs(x.r.v[i] - y.r.v[i]) > 1e-9) {
            return "the second run from the same seed gives other measurement results";
        }
    }
    std::vector<cd> a = readState(x.q->Clone()), b = readState(y.q->Clone());
    for (size_t i = 0; i < a.size(); ++i) {
        if (!(std::abs(std::abs(a[i]) - std::abs(b[i])) < 2e-3)) {
            return "the second run from the same seed ends in a state whose amplitude " + std::to_string(i) + " differs by " + f2s(std::abs(a[i] - b[i]));
        }
    }
    return "";
}

void runDiff(Case& c, const Plan& p)
{
    registerAll();
    Rng& g = c.g;
    Start st;
    st.stack = p.stacks[g.below(p.stacks.size())];
    Prof pf;
    pf.level = p.levels[g.below(p.levels.size())];
    if (st.stack == "stab" || st.stack == "uclif") {
        pf.level = 0;
    }
    st.n = g.range(p.minN, p.maxN);
    st.maxN = p.maxN + 2;
    st.perm = g.below((u64)1 << st.n);
    st.randPhase = g.chance(0.5);
    st.norm = g.chance(0.15);
    st.sparse = p.sparseToo && g.chance(0.3);
    st.rseed = g.next();
    const u64 setupSeed = g.next();
    const int nops = g.range(p.minOps, p.maxOps);
    const double cmpRate = g.chance(0.3) ? 1.0 : (g.chance(0.5) ? 0.25 : 0.05);
    const bool super = g.chance(p.superpose);
    // mode skew: some programs draw from few operation kinds only
    double wsum = 0;
    std::vector<double> w;
    for (auto& m : p.mix) {
        const double z = m.second * (g.chance(0.25) ? 0.05 : 1.0) * (g.chance(0.15) ? 4 : 1);
        w.push_back(z);
        wsum += z;
    }
    char head[300];
    snprintf(head, sizeof head, "stack=%s n=%d perm=%llu level=%d randPhase=%d doNorm=%d sparse=%d", st.stack.c_str(), st.n,
        (unsigned long long)st.perm, pf.level, st.randPhase, st.norm, st.sparse);
    c.log.push_back(head);
    Ctx x;
    try {
        begin(x, st, p, setupSeed);
    } catch (const std::exception& e) {
        c.fail(st.stack + ":construct", std::string("constructing the simulator threw: ") + e.what());
        return;
    }
    ++c.cnt["stack:" + st.stack];
    std::vector<std::pair<Op, int>> done;
    std::set<std::string> resizing; // later arguments depend on these
    u64 ph = hashStr(head);
    std::string bad, badOp;
    // candidates per mix entry
    std::vector<std::vector<const OpDef*>> cand;
    for (auto& m : p.mix) {
        std::vector<const OpDef*> l;
        for (auto& d : registry()) {
            if ((d.tags & m.first) && d.level <= pf.level && (!p.allow || p.allow(st.stack, d))) {
                l.push_back(&d);
            }
        }
        cand.push_back(l);
    }
    const OpDef* opH = findOp("H");
    for (int i = 0; i < nops + (super ? st.n : 0) && bad.empty(); ++i) {
        Op o;
        const OpDef* d = nullptr;
        if (super && i < st.n) {
            if (g.chance(0.3)) {
                continue;
            }
            d = opH;
            o.q = { i };
            o.name = d->name;
        } else {
            double r = g.unit() * wsum;
            size_t k = 0;
            while (k + 1 < w.size() && (r -= w[k]) >= 0) {
                ++k;
            }
            if (cand[k].empty()) {
                continue;
            }
            d = cand[k][g.below(cand[k].size())];
            if (x.r.n < d->minN) {
                continue;
            }
            o.name = d->name;
            if (!d->gen(g, x.r.n, pf, o) || limited(st.stack, o, x.r.n)) {
                continue;
            }
        }
        int cmp = -1;
        if (g.chance(cmpRate) || i + 1 >= nops + (super ? st.n : 0)) {
            cmp = g.chance(0.6) ? 0 : 1;
        }
        bool un = false;
        if (c.verbose) {
            fprintf(stderr, "  %s%s\n", o.str().c_str(), cmp >= 0 ? (cmp ? "  [cmp direct]" : "  [cmp clone]") : "");
        }
        c.log.push_back(o.str() + (cmp >= 0 ? (cmp ? "  [cmp direct]" : "  [cmp clone]") : ""));
        const int nBefore = x.r.n;
        bad = step(x, o, d, cmp, p.tol, un);
        if (x.r.n != nBefore) {
            resizing.insert(o.str());
        }
        if (un) {
            c.log.pop_back();
            continue;
        }
        ++c.cnt["ops"];
        ++c.cnt["op:" + o.name];
        ph = mix(ph, hashStr(o.str()));
        if (cmp >= 0 && bad.empty()) {
            c.states.insert(stateHash(x.r.v));
        }
        done.push_back({ o, cmp });
        badOp = o.name;
        if (x.stop) {
            ++c.cnt["programs ended by a rare outcome"];
            break;
        }
    }
    if (bad.empty() && !x.stop) {
        // final read both ways
        try {
            bad = compareState(x, 0, p.tol);
            if (bad.empty()) {
                bad = compareState(x, 1, p.tol);
            }
        } catch (const std::exception& e) {
            bad = std::string("reading the state threw: ") + e.what();
        }
        badOp = "final";
        c.cnt["states_compared"] += 2;
        c.states.insert(stateHash(x.r.v));
    }
    if (p.twin && bad.empty() && !x.stop) {
        const bool busy = g.chance(0.2);
        std::string t = twinRun(x, st, p, setupSeed, done, busy);
        c.cnt["random results compared"] += std::count(x.trace.begin(), x.trace.end(), ' ');
        ++c.cnt[busy ? "second runs under load" : "second runs"];
        if (!t.empty()) {
            // A threaded sum may be rounded differently, and then a random number that falls on the boundary of two outcomes
            // (about one in 10^7) gives another one: what doesn't repeat from other seeds is no more than that.
            int again = 0;
            for (int k = 1; k <= 8; ++k) {
                Ctx a;
                begin(a, st, p, setupSeed + 7919 * k);
                bool un = false, ok = true;
                for (auto& e : done) {
                    ok = ok && !a.stop && step(a, e.first, findOp(e.first.name), e.second, p.tol, un).empty();
                }
                again += ok && !twinRun(a, st, p, setupSeed + 7919 * k, done, busy).empty();
            }
            if (again < 2) {
                ++c.cnt["differences within rounding"];
                t.clear();
            }
        }
        if (!t.empty()) {
            std::vector<std::pair<Op, int>> cur = done; // which operation does it?
            for (size_t k = 1; k <= done.size(); ++k) {
                std::vector<std::pair<Op, int>> pre(done.begin(), done.begin() + k);
                Ctx a;
                begin(a, st, p, setupSeed);
                bool un = false;
                for (auto& e : pre) {
                    step(a, e.first, findOp(e.first.name), e.second, p.tol, un);
                }
                if (!twinRun(a, st, p, setupSeed, pre, false).empty()) {
                    cur = pre;
                    break;
                }
            }
            for (auto& e : x.cnt) {
                c.cnt[e.first] += e.second;
            }
            c.programs.insert(ph);
            c.fail(st.stack + ":" + cur.back().first.name, "stack " + st.stack + ", after " + cur.back().first.name + ": " + t);
            return;
        }
    }
    for (auto& e : x.cnt) {
        c.cnt[e.first] += e.second;
    }
    c.programs.insert(ph);
    if (!bad.empty()) {
        // where does it go wrong when the state is checked after every operation, and with fewer operations?
        std::string loc = bad, locOp = badOp;
        const bool thr = bad.find("threw") != std::string::npos;
        std::vector<std::pair<Op, int>> cur = done;
        bool rec = false;
        if (!replayOps(st, p, cur, setupSeed, thr).empty() || (rec = !replayOps(st, p, cur, setupSeed, thr, true).empty())) {
            auto trim = [&](std::vector<std::pair<Op, int>>& v) {
                for (size_t k = 1; k <= v.size(); ++k) {
                    std::vector<std::pair<Op, int>> pre(v.begin(), v.begin() + k);
                    if (!replayOps(st, p, pre, setupSeed, thr, rec).empty()) {
                        v = pre;
                        return;
                    }
                }
            };
            trim(cur);
            bool any = true;
            int budget = 400;
            while (any && budget > 0) {
                any = false;
                for (size_t k = cur.size(); k-- > 0 && budget-- > 0;) {
                    if (resizing.count(cur[k].first.str())) {
                        continue;
                    }
                    std::vector<std::pair<Op, int>> t = cur;
                    t.erase(t.begin() + k);
                    const std::string r = replayOps(st, p, t, setupSeed, thr, rec);
                    if (!r.empty() && r.find("out-of-bounds") == std::string::npos) {
                        cur = t;
                        any = true;
                    }
                }
            }
            loc = replayOps(st, p, cur, setupSeed, thr, rec);
            locOp = cur.back().first.name;
            c.log.push_back("--- reduced:");
            for (auto& e : cur) {
                c.log.push_back(e.first.str() + (rec && e.second >= 0 ? (e.second ? "  [cmp direct]" : "  [cmp clone]") : ""));
            }
            c.log.push_back("--- " + loc);
        }
        c.fail(st.stack + ":" + locOp, "stack " + st.stack + ", operation " + badOp + ": " + bad +
                (loc != bad || locOp != badOp ? " (reduced: after " + locOp + ", " + loc + ")" : ""));
    }
}
} // namespace vf
