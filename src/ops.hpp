// Operation registry: every workload operation knows how to generate its arguments, how to run on the real simulator and
// what the independent model says it does.
#pragma once
#include "core.hpp"
#include "qfactory.hpp"

namespace vf {
using namespace Qrack;

enum Tag : unsigned {
    T_1Q = 1,
    T_2Q = 2,
    T_3Q = 4,
    T_MC = 8,
    T_MASK = 16,
    T_REG = 32,
    T_UC = 64,
    T_LOGIC = 128,
    T_PARITY = 256,
    T_ALU = 512, // QAlu
    T_ARITH = 1024, // arithmetic that every QInterface has
    T_MEAS = 2048,
    T_STRUCT = 4096,
    T_SEP = 8192,
    T_SET = 16384,
    T_HAM = 32768,
    T_QUERY = 65536,
    T_CLONE = 1 << 17,
    T_NONUNITARY = 1 << 20, // no inverse
};

struct Ctx {
    QInterfacePtr q;
    Ref r{ 0 };
    std::string stack;
    std::string err; // first violation
    int maxN = 10; // never grow beyond this
    double ptol = 2e-3; // tolerance for probabilities
    std::function<QInterfacePtr(int n, u64 perm)> make; // a fresh simulator of the same stack
    std::map<std::string, long> cnt; // coverage counters
    std::string trace; // results of random operations that leave no mark on the state
    bool stop = false; // a legitimate but rare outcome: the rest would only amplify rounding errors
    std::vector<std::pair<QInterfacePtr, Ref>> kept; // clones that live on, each with its own ideal state
    void fail(const std::string& e)
    {
        if (err.empty()) {
            err = e;
        }
    }
};

struct OpDef {
    std::string name;
    unsigned tags;
    int level; // lowest profile level at which the operation may be generated
    int minN;
    std::function<bool(Rng&, int, const Prof&, Op&)> gen;
    std::function<bool(Ctx&, const Op&)> run; // false: not available on this stack
};

// Judges the probability of an observed outcome: impossible (violation), or so rare that the program ends here.
const double P_IMPOSSIBLE = 1e-7, P_RARE = 2e-4;
inline bool possible(Ctx& x, double p, const std::string& what)
{
    if (!(p > P_IMPOSSIBLE)) {
        x.fail(what + " of probability " + std::to_string(p));
        return false;
    }
    x.stop |= p < P_RARE;
    return true;
}

std::vector<OpDef>& registry();
const OpDef* findOp(const std::string& name);
struct Reg {
    Reg(const char* name, unsigned tags, int level, int minN, std::function<bool(Rng&, int, const Prof&, Op&)> g,
        std::function<bool(Ctx&, const Op&)> r)
    {
        registry().push_back(OpDef{ name, tags, level, minN, g, r });
    }
};
void registerGates();
void registerAlu();
void registerMeas();
void registerClone();
void registerAll();
bool limited(const std::string& stack, const Op& o, int n); // left out because of a known finding (limits.cpp)
std::string compareQ(QInterfacePtr q, const Ref& r, int how, double tol);

inline bitCapInt B(u64 x) { return (bitCapInt)x; }
inline u64 U(const bitCapInt& x) { return (u64)(bitCapIntOcl)x; }
inline std::vector<bitLenInt> Q(const vi& v) { return std::vector<bitLenInt>(v.begin(), v.end()); }
inline complex C(const cd& c) { return complex((real1)c.real(), (real1)c.imag()); }

double genAngle(Rng& g, const Prof& pf);
void genMtrx(Rng& g, const Prof& pf, std::vector<double>& p); // appends 8 doubles
void genPhases(Rng& g, const Prof& pf, std::vector<double>& p); // appends 4 doubles: two unit complex numbers
std::vector<cd> cvec(const Op& o, size_t from, size_t n);

void refQFT(Ref& r, const vi& qs, bool inv);

// state comparison: the simulator's own state vector
std::vector<cd> readState(QInterfacePtr q);
std::string f2s(double d);

// stacks
struct StackCfg {
    std::string name;
    bool randPhase = true;
    bool norm = false;
    bool sparse = false;
};
QInterfacePtr makeStack(const std::string& stack, int n, u64 perm, std::shared_ptr<qrack_rand_gen> rg, bool randPhase,
    bool doNorm = false, bool sparse = false);
const std::vector<std::string>& allStacks();
} // namespace vf
