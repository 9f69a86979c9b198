// P15: quantum neurons against a dense model of "one RY per input permutation".
#define VF_INIT vfUnusedInit2
#include "capi.hpp"
#include "qneuron.hpp"
namespace vf {
namespace {
const double PI2 = 2 * M_PI;
double act(int f, double a, double alpha)
{
    switch (f) {
    case 1:
        return std::max(0.0, a);
    case 2:
        return a * (1 + std::erf(a * std::sqrt(0.5)));
    case 3: {
        double b = 0;
        // (compared in the simulator's precision: the function jumps at pi)
        if ((real1)a > PI_R1) {
            a = (real1)a - PI_R1;
            b = M_PI;
        } else if ((real1)a <= -PI_R1) {
            a = (real1)a + PI_R1;
            b = -M_PI;
        }
        return b + std::pow(2 * std::abs(a) / M_PI, alpha) * (M_PI / 2) * (a < 0 ? -1 : 1);
    }
    case 4:
        return std::max(alpha * a, a);
    default:
        return a;
    }
}
struct Neu { // a neuron under test: a QNeuron object, or one behind the C interface
    virtual ~Neu() {}
    virtual double predict(bool e, bool r) = 0;
    virtual double unpredict(bool e) = 0;
    virtual double cycle(bool e) = 0;
    virtual void learn(double eta, bool e, bool r) = 0;
    virtual void learnPerm(double eta, bool e, bool r) = 0;
    virtual void set(std::vector<real1_s> a) = 0;
    virtual std::vector<real1_s> get(size_t n) = 0;
    virtual void setAlpha(double a) = 0;
    virtual double alpha() = 0;
    virtual void setFn(int f) = 0;
    virtual int fn() = 0;
    virtual std::shared_ptr<Neu> clone(Rng& g) = 0;
};
struct NeuObj : Neu {
    QNeuronPtr p;
    QInterfacePtr q;
    double predict(bool e, bool r) override { return p->Predict(e, r); }
    double unpredict(bool e) override { return p->Unpredict(e); }
    double cycle(bool e) override { return p->LearnCycle(e); }
    void learn(double eta, bool e, bool r) override { p->Learn((real1_f)eta, e, r); }
    void learnPerm(double eta, bool e, bool r) override { p->LearnPermutation((real1_f)eta, e, r); }
    void set(std::vector<real1_s> a) override
    {
        std::vector<real1> b(a.begin(), a.end());
        p->SetAngles(b.data());
    }
    std::vector<real1_s> get(size_t n) override
    {
        std::vector<real1> b(n);
        p->GetAngles(b.data());
        return std::vector<real1_s>(b.begin(), b.end());
    }
    void setAlpha(double a) override { p->SetAlpha((real1_f)a); }
    double alpha() override { return p->GetAlpha(); }
    void setFn(int f) override { p->SetActivationFn((QNeuronActivationFn)f); }
    int fn() override { return (int)p->GetActivationFn(); }
    std::shared_ptr<Neu> clone(Rng& g) override
    {
        auto r = std::make_shared<NeuObj>();
        r->q = q;
        if (g.chance(0.5)) {
            r->p = std::make_shared<QNeuron>(*p);
        } else { // assigned over a neuron of any size
            const int k = g.range(0, 3);
            std::vector<bitLenInt> in;
            for (int i = 0; i < k; ++i) {
                in.push_back((bitLenInt)i);
            }
            r->p = std::make_shared<QNeuron>(q, in, (bitLenInt)k, (QNeuronActivationFn)g.below(5), (real1_f)0.5);
            *r->p = *p;
        }
        return r;
    }
};
struct NeuC : Neu {
    uintq id;
    ~NeuC() override { ::destroy_qneuron(id); }
    double predict(bool e, bool r) override { return ::qneuron_predict(id, e, r); }
    double unpredict(bool e) override { return ::qneuron_unpredict(id, e); }
    double cycle(bool e) override { return ::qneuron_learn_cycle(id, e); }
    void learn(double eta, bool e, bool r) override { ::qneuron_learn(id, eta, e, r); }
    void learnPerm(double eta, bool e, bool r) override { ::qneuron_learn_permutation(id, eta, e, r); }
    void set(std::vector<real1_s> a) override { ::set_qneuron_angles(id, a.data()); }
    std::vector<real1_s> get(size_t n) override
    {
        std::vector<real1_s> a(n);
        ::get_qneuron_angles(id, a.data());
        return a;
    }
    void setAlpha(double a) override { ::set_qneuron_alpha(id, a); }
    double alpha() override { return ::get_qneuron_alpha(id); }
    void setFn(int f) override { ::set_qneuron_activation_fn(id, (uintq)f); }
    int fn() override { return (int)::get_qneuron_activation_fn(id); }
    std::shared_ptr<Neu> clone(Rng&) override
    {
        auto r = std::make_shared<NeuC>();
        r->id = ::clone_qneuron(id);
        return r;
    }
};
struct M { // model of one neuron
    std::shared_ptr<Neu> p;
    vi in;
    int out, f;
    double alpha, tol;
    std::vector<double> a;
};
void rotate(Ref& r, const M& m, double sign)
{
    for (u64 k = 0; k < m.a.size(); ++k) {
        const double h = sign * act(m.f, m.a[k], m.alpha) / 2;
        const cd x[4] = { std::cos(h), -std::sin(h), std::sin(h), std::cos(h) };
        r.mtrx(m.in, k, x, m.out);
    }
}
double outcome(const Ref& r, const M& m, bool e)
{
    const double p = r.prob(m.out);
    return e ? p : 1 - p;
}
double predicted(Ref r, const M& m, bool e)
{
    rotate(r, m, 1);
    return outcome(r, m, e);
}
} // namespace
static void neuronCase(Case& c, bool capi)
{
    registerAll();
    Rng& g = c.g;
    const int n = g.range(1, 6);
    static const std::vector<std::string> stacks = { "cpu", "cpu", "qunit", "pager1", "qunit_pager" };
    std::string stack = capi ? "c" : stacks[g.below(stacks.size())];
    QInterfacePtr q;
    uintq sid = 0, base = 0;
    if (!capi) {
        auto rg = std::make_shared<qrack_rand_gen>();
        rg->seed((uint32_t)g.next());
        q = makeStack(stack, n, 0, rg, g.chance(0.5));
    } else {
        quietCout();
        const bool sub = g.chance(0.5);
        base = g.below(3);
        sid = ::init_count_type(n + base, false, false, sub, false, false, false, false, false, false, false);
        for (uintq i = 0; i < base; ++i) { // so that IDs differ from positions
            ::release(sid, i);
        }
    }
    struct Drop {
        bool on;
        uintq id;
        ~Drop()
        {
            if (on) {
                ::destroy(id);
            }
        }
    } drop{ capi, sid };
    auto put = [&](int t, const cd* m) {
        if (capi) {
            double d[8];
            for (int i = 0; i < 4; ++i) {
                d[2 * i] = m[i].real();
                d[2 * i + 1] = m[i].imag();
            }
            ::Mtrx(sid, d, base + t);
        } else {
            const complex x[4] = { C(m[0]), C(m[1]), C(m[2]), C(m[3]) };
            q->Mtrx(x, (bitLenInt)t);
        }
    };
    auto cx = [&](int a, int b) {
        if (capi) {
            uintq cc = base + a;
            ::MCX(sid, 1, &cc, base + b);
        } else {
            q->CNOT((bitLenInt)a, (bitLenInt)b);
        }
    };
    auto measure = [&](int t) { return capi ? (bool)::M(sid, base + t) : q->M((bitLenInt)t); };
    auto read = [&]() {
        if (!capi) {
            return readState(q);
        }
        std::vector<real1_s> k((size_t)2 << n);
        ::OutKet(sid, k.data());
        std::vector<cd> v((size_t)1 << n);
        for (size_t i = 0; i < v.size(); ++i) {
            v[i] = cd(k[2 * i], k[2 * i + 1]);
        }
        return v;
    };
    Ref r(n);
    const cd X[4] = { 0, 1, 1, 0 };
    auto ry = [&](int t, double a) {
        const cd m[4] = { std::cos(a / 2), -std::sin(a / 2), std::sin(a / 2), std::cos(a / 2) };
        put(t, m);
        r.mtrx(m, t);
    };
    std::string bad;
    u64 h = mix(n, hashStr(stack));
    auto note = [&](const std::string& s) {
        c.log.push_back(s);
        h = mix(h, hashStr(s));
        if (c.verbose) {
            fprintf(stderr, "%s\n", s.c_str());
        }
    };
    note("stack " + stack + " n=" + std::to_string(n));
    auto same = [&](const std::string& what) {
        if (!bad.empty()) {
            return;
        }
        const double f = r.fidelity(read());
        c.states.insert(stateHash(r.v));
        ++c.cnt["state comparisons"];
        if (!(f > 1 - 1e-3)) {
            bad = what + ": the state has fidelity " + f2s(f) + " with the ideal state";
        }
    };
    std::vector<M> ms;
    auto fresh = [&]() {
        M m;
        const int k = g.range(0, n - 1);
        vi p = g.pick(n, k + 1);
        m.out = p[0];
        m.in = vi(p.begin() + 1, p.end());
        m.f = (int)g.below(5);
        m.alpha = m.f == 4 ? g.uni(0, 1) : g.uni(0.6, 3);
        m.tol = g.chance(0.5) ? 1e-5 : 1e-3;
        m.a.assign((size_t)1 << k, 0);
        if (capi) {
            auto x = std::make_shared<NeuC>();
            std::vector<uintq> in;
            for (int i : m.in) {
                in.push_back(base + i);
            }
            x->id = ::init_qneuron(sid, in.size(), in.data(), base + m.out, (uintq)m.f, m.alpha, m.tol);
            m.p = x;
        } else {
            auto x = std::make_shared<NeuObj>();
            x->q = q;
            x->p = std::make_shared<QNeuron>(q, Q(m.in), (bitLenInt)m.out, (QNeuronActivationFn)m.f, (real1_f)m.alpha, (real1_f)m.tol);
            m.p = x;
        }
        std::string s = "new neuron: inputs";
        for (int i : m.in) {
            s += " " + std::to_string(i);
        }
        note(s + " output " + std::to_string(m.out) + " activation " + std::to_string(m.f) + " alpha " + f2s(m.alpha));
        ms.push_back(m);
    };
    fresh();
    const int steps = g.range(4, 22);
    for (int s = 0; s < steps && bad.empty(); ++s) {
        const int i = (int)g.below(ms.size());
        M& m = ms[i];
        const std::string me = "neuron " + std::to_string(i) + " ";
        const bool e = g.chance(0.5), reset = g.chance(0.5);
        auto doReset = [&]() { // SetBit(out, false); RY(pi/2, out), after a measurement whose outcome can be seen
            if (!reset) {
                return;
            }
            const bool o = measure(m.out);
            const u64 b = (u64)1 << m.out;
            if (!(r.probMask(b, o ? b : 0) > P_IMPOSSIBLE)) {
                bad = me + ": impossible measurement outcome";
                return;
            }
            r.project(b, o ? b : 0);
            if (o) {
                r.mtrx(X, m.out);
            }
            const double k = std::sqrt(0.5);
            const cd R[4] = { k, -k, k, k };
            r.mtrx(R, m.out);
        };
        auto prob = [&](const char* what, double got, double want) {
            ++c.cnt["probabilities"];
            if (bad.empty() && !(std::abs(got - want) < 2e-3)) {
                bad = me + what + " returned " + f2s(got) + " instead of " + f2s(want);
            }
        };
        auto angles = [&]() {
            std::vector<real1_s> x = m.p->get(m.a.size());
            return std::vector<double>(x.begin(), x.end());
        };
        const double z = g.unit();
        if (z < 0.16) {
            const int t = (int)g.below(n);
            const double a = g.chance(0.3) ? M_PI / 2 * g.range(-4, 4) : g.uni(-PI2, PI2);
            note("RY " + std::to_string(t) + " " + f2s(a));
            ry(t, a);
        } else if (z < 0.24 && n > 1) {
            vi p = g.pick(n, 2);
            note("CNOT " + std::to_string(p[0]) + " " + std::to_string(p[1]));
            cx(p[0], p[1]);
            r.cmtrx({ p[0] }, X, p[1]);
        } else if (z < 0.36) {
            note(me + "set angles");
            std::vector<real1_s> x(m.a.size());
            for (size_t k = 0; k < x.size(); ++k) {
                const double a = g.chance(0.2) ? M_PI / 2 * g.range(-4, 4) : g.uni(-PI2, PI2);
                x[k] = (real1_s)a;
                m.a[k] = x[k];
            }
            h = mix(h, hashStr(f2s(x[0])));
            m.p->set(x);
        } else if (z < 0.40) {
            if (g.chance(0.5)) {
                m.f = (int)g.below(5);
                m.p->setFn(m.f);
            } else {
                m.alpha = g.uni(0.6, 3);
                m.p->setAlpha(m.alpha);
            }
            note(me + "activation " + std::to_string(m.f) + " alpha " + f2s(m.alpha));
            if (m.p->fn() != m.f || std::abs(m.p->alpha() - m.alpha) > 1e-5) {
                bad = me + "does not keep its activation function or alpha";
            }
        } else if (z < 0.47 && ms.size() < 4) {
            if (g.chance(0.5)) {
                fresh();
            } else {
                note("copy of neuron " + std::to_string(i));
                M d = m;
                d.p = m.p->clone(g);
                ms.push_back(d);
            }
        } else if (z < 0.62) {
            note(me + "predict " + std::to_string(e) + " " + std::to_string(reset));
            doReset();
            const double got = m.p->predict(e, reset);
            rotate(r, m, 1);
            prob("Predict", got, outcome(r, m, e));
            same(me + "Predict");
        } else if (z < 0.70) {
            note(me + "unpredict " + std::to_string(e));
            const double got = m.p->unpredict(e);
            rotate(r, m, -1);
            prob("Unpredict", got, outcome(r, m, e));
            same(me + "Unpredict");
        } else if (z < 0.76) {
            note(me + "learn cycle " + std::to_string(e));
            const double want = predicted(r, m, e);
            prob("LearnCycle", m.p->cycle(e), want);
            same(me + "LearnCycle");
        } else {
            const bool one = g.chance(0.5);
            const double eta = g.chance(0.2) ? 0.5 : g.uni(0.01, 1);
            note(me + (one ? "learn permutation " : "learn ") + f2s(eta) + " " + std::to_string(e) + " " + std::to_string(reset));
            doReset();
            if (!bad.empty()) {
                break;
            }
            const double before = predicted(r, m, e);
            if (one) {
                m.p->learnPerm(eta, e, reset);
            } else {
                m.p->learn(eta, e, reset);
            }
            std::vector<double> now = angles();
            size_t changed = 0, which = 0;
            for (size_t k = 0; k < now.size(); ++k) {
                double d = std::abs(now[k] - m.a[k]);
                if (d < 1e-5) {
                    continue;
                }
                ++changed;
                which = k;
                d = std::fmod(d, 2 * PI2);
                d = std::min(d, 2 * PI2 - d);
                if (std::abs(d - eta * M_PI) > 1e-3) {
                    bad = me + "learning moved angle " + std::to_string(k) + " by " + f2s(now[k] - m.a[k]) + " at rate " + f2s(eta);
                }
            }
            c.cnt["angles trained"] += changed;
            double start = before;
            if (one && !(1 - before <= m.tol + 2e-5 && r.fidelity(read()) > 1 - 1e-4)) { // the inputs were measured
                std::vector<cd> v = read();
                Ref o(n);
                o.v = v;
                o.normalize();
                u64 mask = 0, val = 0;
                size_t perm = 0;
                for (size_t k = 0; k < m.in.size(); ++k) {
                    const double p = o.prob(m.in[k]);
                    if (p > 1e-3 && p < 1 - 1e-3) {
                        bad = me + "LearnPermutation left input " + std::to_string(m.in[k]) + " unmeasured";
                    }
                    mask |= (u64)1 << m.in[k];
                    if (p > 0.5) {
                        val |= (u64)1 << m.in[k];
                        perm |= (size_t)1 << k;
                    }
                }
                const double pp = r.probMask(mask, val);
                if (bad.empty() && !(pp > P_IMPOSSIBLE)) {
                    bad = me + "LearnPermutation measured impossible inputs";
                }
                if (!bad.empty()) {
                    break;
                }
                r.project(mask, val);
                if (pp < P_RARE) {
                    break;
                }
                if (changed > 1 || (changed && which != perm)) {
                    bad = me + "LearnPermutation trained another permutation than the measured one";
                }
                start = predicted(r, m, e);
            }
            same(me + "learning");
            // could one step of one angle improve the prediction?
            double best = start;
            M t = m;
            for (size_t k = 0; k < m.a.size(); ++k) {
                for (int sg = -1; sg <= 1; sg += 2) {
                    t.a[k] = (real1)((real1)m.a[k] + sg * (real1)eta * PI_R1);
                    best = std::max(best, predicted(r, t, e));
                }
                t.a[k] = m.a[k];
            }
            m.a = now;
            const double after = predicted(r, m, e);
            ++c.cnt["learning steps"];
            c.cnt["learning steps that improve"] += after > start + 1e-3;
            if (bad.empty() && !(after > start - 5e-4)) {
                bad = me + "learning lowered the probability of the expected output from " + f2s(start) + " to " + f2s(after);
            }
            if (bad.empty() && 1 - start > 2e-3 && best > start + 2e-3 && !(after > start + 5e-4)) {
                bad = me + "learning did not improve the prediction (" + f2s(start) + "), one step would give " + f2s(best);
            }
        }
        if (bad.empty()) { // no neuron's angles change except by its own training
            for (size_t k = 0; k < ms.size() && bad.empty(); ++k) {
                std::vector<real1_s> x = ms[k].p->get(ms[k].a.size());
                for (size_t j = 0; j < x.size(); ++j) {
                    if (std::abs(x[j] - ms[k].a[j]) > 1e-6) {
                        bad = "neuron " + std::to_string(k) + " angle " + std::to_string(j) + " is " + f2s(x[j]) + " instead of " + f2s(ms[k].a[j]);
                    }
                }
            }
        }
    }
    if (bad.empty()) {
        same("at the end");
    }
    if (capi && bad.empty() && ::get_error(sid)) {
        bad = "the C interface reports an error";
    }
    ms.clear();
    c.programs.insert(h);
    if (!bad.empty()) {
        c.fail(stack + ":" + bad.substr(0, 40), bad);
    }
}
static RegCheck rNeuron("neuron", [](Case& c) { neuronCase(c, false); });
static RegCheck rNeuronC("neuron-capi", [](Case& c) { neuronCase(c, true); });
} // namespace vf
