#include "harness.hpp"
namespace vf {
static const unsigned GATES = T_1Q | T_2Q | T_3Q | T_MC | T_MASK | T_REG | T_UC | T_LOGIC;
static RegCheck rTry("try", [](Case& c) {
    Plan p;
    const char* s = getenv("VF_STACKS");
    if (s) {
        std::istringstream is(s);
        std::string t;
        while (is >> t) {
            p.stacks.push_back(t);
        }
    } else {
        p.stacks = { "cpu" };
    }
    const char* m = getenv("VF_TAGS");
    if (m) {
        p.mix = { { (unsigned)strtoul(m, nullptr, 0), 1.0 } };
    } else {
        p.mix = { { GATES, 1.0 } };
    }
    p.mix.push_back({ T_1Q, 0.3 });
    const char* k = getenv("VF_SKIP");
    std::set<std::string> skip;
    if (k) {
        std::istringstream is(k);
        std::string t;
        while (is >> t) {
            skip.insert(t);
        }
    }
    const char* lv = getenv("VF_LEVEL");
    if (lv) {
        p.levels = { atoi(lv) };
    }
    const char* mn = getenv("VF_MAXN");
    if (mn) {
        p.maxN = atoi(mn);
    }
    p.allow = [skip](const std::string&, const OpDef& d) { return !skip.count(d.name); };
    p.setup = [](QInterfacePtr q, const std::string& s, Rng&) {
        if (s.substr(0, 5) == "noisy") {
            q->SetNoiseParameter(0);
        }
    };
    runDiff(c, p);
});

// ---- per-property plans
static const unsigned EVERY = 0x7fff;
static std::function<bool(const std::string&, const OpDef&)> noAllow;
static RegCheck r01("p01", [](Case& c) {
    Plan p;
    p.stacks = { "cpu" };
    p.mix = { { T_1Q, 0.6 }, { GATES & ~(unsigned)T_1Q, 1.6 }, { T_PARITY, 0.1 }, { T_SET, 0.05 } };
    p.sparseToo = true;
    p.maxN = c.g.chance(0.03) ? 12 : 8;
    runDiff(c, p);
});

typedef std::vector<std::string> vs;
static void noNoise(QInterfacePtr q, const std::string& s, Rng&)
{
    if (s.compare(0, 5, "noisy") == 0) {
        q->SetNoiseParameter(0);
    }
}
static void plan(const char* name, const vs& stacks, const std::vector<std::pair<unsigned, double>>& mix, int maxN = 8)
{
    checks()[name] = [stacks, mix, maxN](Case& c) {
        Plan p;
        p.stacks = stacks;
        p.mix = mix;
        p.setup = noNoise;
        p.maxN = c.g.chance(0.03) ? maxN + 2 : maxN;
        runDiff(c, p);
    };
}
static RegCheck r25("p25", [](Case& c) {
    Plan p;
    p.stacks = { "cpu", "pager", "pager2", "qunit", "qunit_pager", "stab", "uclif", "noisy" };
    p.mix = { { T_1Q, 0.6 }, { T_2Q | T_MC, 0.7 }, { T_MEAS, 1.2 }, { T_SET, 0.2 }, { T_STRUCT, 0.2 }, { T_SEP, 0.1 }, { T_CLONE, 0.1 }, { T_ARITH, 0.1 } };
    p.maxN = 7;
    p.setup = noNoise;
    p.twin = true;
    runDiff(c, p);
});
static const unsigned G = GATES | T_PARITY | T_HAM;
static const unsigned A = T_ALU | T_ARITH;
static const unsigned SM = T_MEAS | T_STRUCT | T_SEP | T_SET;
static const vs PAGED{ "pager", "pager1", "pager2", "pager3" };
static const vs UNITS{ "qunit", "qunit", "qunit_pager", "qunit_pager2" };
static const vs DENSE{ "cpu", "pager", "pager1", "pager2", "pager3", "qunit", "qunit_pager", "noisy" };
static struct Plans {
    Plans()
    {
        plan("p02", UNITS, { { T_1Q, 0.5 }, { GATES & ~(unsigned)T_1Q, 1.2 }, { T_PARITY, 0.15 }, { A, 0.3 }, { SM, 0.4 }, { T_QUERY, 0.3 } });
        plan("p02g", UNITS, { { T_1Q, 0.7 }, { T_2Q | T_3Q | T_MC, 1.2 }, { T_MASK | T_REG, 0.2 }, { T_SEP, 0.1 }, { T_MEAS, 0.1 } });
        plan("p03", { "stab", "uclif" }, { { T_1Q, 0.5 }, { GATES & ~(unsigned)T_1Q, 1.2 }, { T_PARITY, 0.1 }, { T_ARITH, 0.1 }, { SM, 0.6 }, { T_QUERY, 0.4 }, { T_CLONE, 0.1 } });
        plan("p28", { "cpu", "pager", "pager1", "pager2", "pager3", "qunit", "qunit_pager", "stab", "uclif", "noisy" },
            { { T_1Q, 0.5 }, { GATES & ~(unsigned)T_1Q, 1.2 }, { T_PARITY, 0.15 }, { A, 0.6 }, { SM, 0.5 }, { T_QUERY, 0.5 }, { T_CLONE, 0.1 } });
        plan("p06", PAGED, { { T_1Q, 0.5 }, { GATES & ~(unsigned)T_1Q, 1.2 }, { T_PARITY, 0.15 }, { A, 0.3 }, { SM, 0.4 }, { T_QUERY, 0.3 } });
        plan("p08", DENSE, { { T_1Q, 0.6 }, { T_2Q | T_MC, 0.6 }, { T_MEAS, 1.5 }, { T_SET, 0.3 } }, 7);
        plan("p09", DENSE, { { T_1Q, 0.7 }, { GATES & ~(unsigned)T_1Q, 0.5 }, { T_QUERY, 2 } }, 7);
        plan("p10", DENSE, { { T_1Q, 0.6 }, { T_2Q | T_MC, 0.8 }, { T_STRUCT, 1.5 }, { T_SEP, 0.2 }, { T_MEAS, 0.1 }, { T_SET, 0.1 } }, 7);
        plan("p11", DENSE, { { T_1Q, 0.4 }, { T_2Q | T_MC, 0.2 }, { A, 2 } });
        plan("p27", DENSE, { { T_1Q, 0.6 }, { T_2Q | T_MC, 0.4 }, { T_HAM, 2 } }, 7);
        plan("p12", DENSE, { { T_1Q, 0.5 }, { T_2Q | T_MC, 0.5 }, { T_CLONE, 1 }, { T_MEAS | T_SET | T_STRUCT, 0.2 }, { T_ARITH, 0.1 } }, 6);
    }
} plans;
} // namespace vf
