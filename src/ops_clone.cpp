// Clones that live on: every clone or copy has its own ideal state, and both sides are driven further, in any order.
#include "ops.hpp"
namespace vf {
#define GEN [](Rng & g, int n, const Prof& pf, Op& o) -> bool
#define RUN [](Ctx & x, const Op& o) -> bool
static std::string sameSettings(QInterfacePtr a, QInterfacePtr b)
{
    if (a->GetQubitCount() != b->GetQubitCount()) {
        return "qubit count";
    }
    if (U(a->GetMaxQPower()) != U(b->GetMaxQPower())) {
        return "GetMaxQPower()";
    }
    if (a->GetReactiveSeparate() != b->GetReactiveSeparate()) {
        return "GetReactiveSeparate()";
    }
    if (a->GetTInjection() != b->GetTInjection()) {
        return "GetTInjection()";
    }
    if (std::fabs(a->GetNoiseParameter() - b->GetNoiseParameter()) > 1e-6) {
        return "GetNoiseParameter()";
    }
    if (std::fabs(a->GetUnitaryFidelity() - b->GetUnitaryFidelity()) > 1e-4) {
        return "GetUnitaryFidelity()";
    }
    return "";
}
void registerClone()
{
    Reg("KeepClone", T_CLONE, 0, 1, GEN { o.q = { g.range(0, 5), g.range(0, 2), g.range(0, 3) }; return true; }, RUN {
        if (o.q[2] == 0 && (x.stack.find("unit") != std::string::npos || x.stack.find("pager") != std::string::npos)) {
            x.q->SetReactiveSeparate(!x.q->GetReactiveSeparate());
        }
        QInterfacePtr c = x.q->Clone();
        const std::string s = sameSettings(x.q, c);
        if (!s.empty()) {
            x.fail("Clone() has a different " + s);
            return true;
        }
        ++x.cnt["clones_kept"];
        if (o.q[0] >= 4) { // go on with the clone
            std::swap(c, x.q);
        }
        if (x.kept.size() >= 3) {
            x.kept[o.q[1]] = { c, x.r };
        } else {
            x.kept.push_back({ c, x.r });
        }
        return true;
    });
    Reg("KeptOp", T_CLONE, 0, 1, GEN { o.q = { g.range(0, 2), (long)g.below(1 << 30), pf.level, g.range(1, 4) }; return true; }, RUN {
        if (x.kept.empty()) {
            return true;
        }
        auto& k = x.kept[o.q[0] % x.kept.size()];
        Rng g(o.q[1]);
        Prof pf;
        pf.level = (int)o.q[2];
        std::vector<const OpDef*> cand;
        for (auto& d : registry()) {
            if ((d.tags & (T_1Q | T_2Q | T_MC | T_REG | T_LOGIC | T_MEAS | T_SET | T_STRUCT | T_SEP | T_ARITH)) && d.level <= pf.level) {
                cand.push_back(&d);
            }
        }
        for (int i = 0; i < o.q[3]; ++i) {
            const OpDef* d = cand[g.below(cand.size())];
            if (k.second.n < d->minN) {
                continue;
            }
            Op s;
            s.name = d->name;
            if (!d->gen(g, k.second.n, pf, s) || limited(x.stack, s, k.second.n)) {
                continue;
            }
            Ctx y;
            y.stack = x.stack;
            y.maxN = x.maxN;
            y.make = x.make;
            y.q = k.first;
            y.r = k.second;
            d->run(y, s);
            if (!y.err.empty()) {
                x.fail("on a kept clone, " + s.str() + ": " + y.err);
                return true;
            }
            k.first = y.q;
            k.second = y.r;
            ++x.cnt["kept_clone_ops"];
        }
        return true;
    });
    Reg("KeptSwap", T_CLONE, 0, 1, GEN { o.q = { g.range(0, 2) }; return true; }, RUN {
        if (x.kept.empty()) {
            return true;
        }
        auto& k = x.kept[o.q[0] % x.kept.size()];
        if (k.second.n != x.r.n) {
            return true;
        }
        std::swap(k.first, x.q);
        std::swap(k.second, x.r);
        return true;
    });
    Reg("KeptDrop", T_CLONE, 0, 1, GEN { o.q = { g.range(0, 2) }; return true; }, RUN {
        if (!x.kept.empty()) {
            x.kept.erase(x.kept.begin() + (o.q[0] % x.kept.size()));
        }
        return true;
    });
}
} // namespace vf
