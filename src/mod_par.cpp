// P21: parallel loops visit each index once; the work queue is ordered, exclusive and complete.
#include "harness.hpp"
#include "common/dispatchqueue.hpp"
#include "common/parallel_for.hpp"
#include "statevector.hpp"
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
namespace vf {
static void spin(u64 h)
{
    switch (h % 37) {
    case 0:
        std::this_thread::yield();
        break;
    case 1:
        std::this_thread::sleep_for(std::chrono::microseconds(h / 37 % 60));
        break;
    case 2:
        for (volatile int i = 0; i < (int)(h / 37 % 400); ++i) {
        }
        break;
    default:
        break;
    }
}
static RegCheck rPar("parfor", [](Case& c) {
    Rng& g = c.g;
    const int stridePow = g.range(0, 5);
    setenv("QRACK_PSTRIDEPOW", std::to_string(stridePow).c_str(), 1);
    ParallelFor pf;
    unsetenv("QRACK_PSTRIDEPOW");
    const unsigned cores = (unsigned)g.range(1, 12);
    const bool setCores = g.chance(0.8);
    if (setCores) {
        pf.SetConcurrencyLevel(cores);
    }
    const unsigned nc = pf.GetConcurrencyLevel();
    if (setCores && nc != cores) {
        c.fail("SetConcurrencyLevel", "SetConcurrencyLevel(" + std::to_string(cores) + ") set " + std::to_string(nc));
        return;
    }
    if (pf.GetStride() != ((bitCapIntOcl)1 << stridePow)) {
        c.fail("stride", "QRACK_PSTRIDEPOW is not respected");
        return;
    }
    const int kind = g.range(0, 7);
    const int pw = g.range(0, 10);
    const u64 N = (u64)1 << pw;
    std::vector<u64> expect;
    const u64 salt = g.next();
    const size_t SZ = (size_t)1 << 16;
    static std::vector<std::atomic<uint8_t>> seen(SZ);
    for (auto& s : seen) {
        s.store(0, std::memory_order_relaxed);
    }
    std::vector<std::atomic<int>> busy(256);
    for (auto& b : busy) {
        b = 0;
    }
    std::atomic<int> bad(0);
    std::atomic<unsigned> maxCpu(0);
    std::atomic<long> calls(0);
    std::atomic<int> inflight(0), peak(0);
    ParallelFunc fn = [&](const bitCapIntOcl& i, const unsigned& cpu) {
        if (cpu >= 256 || busy[cpu].fetch_add(1) != 0) {
            bad |= 1;
        }
        if (cpu >= nc) {
            bad |= 4;
        }
        const int f = ++inflight;
        int p = peak.load();
        while (f > p && !peak.compare_exchange_weak(p, f)) {
        }
        unsigned m = maxCpu.load();
        while (cpu > m && !maxCpu.compare_exchange_weak(m, cpu)) {
        }
        ++calls;
        if (i >= SZ) {
            bad |= 2;
        } else {
            ++seen[i];
        }
        spin(mix(salt, i));
        --inflight;
        if (cpu < 256) {
            --busy[cpu];
        }
    };
    std::string what;
    auto num = [](u64 x) { return std::to_string((unsigned long long)x); };
    switch (kind) {
    case 0: {
        const u64 b = g.below(50), e = b + g.below(2000);
        what = "par_for(" + num(b) + ", " + num(e) + ")";
        for (u64 i = b; i < e; ++i) {
            expect.push_back(i);
        }
        pf.par_for(b, e, fn);
        break;
    }
    case 1: {
        const u64 b = g.below(50), n = g.below(2000), k = 1 + 2 * g.below(8), o = g.below(9);
        what = "par_for_inc(" + num(b) + ", " + num(n) + ", " + num(k) + "i+" + num(o) + ")";
        for (u64 i = b; i < b + n; ++i) {
            expect.push_back(k * i + o);
        }
        pf.par_for_inc(b, n, [k, o](const bitCapIntOcl& i) { return (bitCapIntOcl)(k * i + o); }, fn);
        break;
    }
    case 2: {
        if (pw < 1) {
            return;
        }
        const int s = g.range(0, pw - 1), w = g.range(1, pw - s);
        what = "par_for_skip(0, " + num(N) + ", " + num((u64)1 << s) + ", " + num(w) + ")";
        const u64 m = ((((u64)1 << w) - 1) << s);
        for (u64 i = 0; i < N; ++i) {
            if (!(i & m)) {
                expect.push_back(i);
            }
        }
        pf.par_for_skip(0, N, (bitCapIntOcl)1 << s, (bitLenInt)w, fn);
        break;
    }
    case 3: {
        if (pw < 1) {
            return;
        }
        vi p = g.pick(pw, g.range(1, std::min(pw, 8)));
        if (g.chance(0.3)) { // all topmost, or all but one gap
            const int k = g.range(1, pw);
            p.clear();
            const int gap = g.chance(0.5) ? g.range(pw - k, pw - 1) : -1;
            for (int i = pw - k; i < pw; ++i) {
                if (i != gap) {
                    p.push_back(i);
                }
            }
        }
        std::sort(p.begin(), p.end());
        std::vector<bitCapIntOcl> m;
        u64 mask = 0;
        what = "par_for_mask(0, " + num(N) + ", {";
        for (int i : p) {
            m.push_back((bitCapIntOcl)1 << i);
            mask |= (u64)1 << i;
            what += num((u64)1 << i) + ",";
        }
        what += "})";
        for (u64 i = 0; i < N; ++i) {
            if (!(i & mask)) {
                expect.push_back(i);
            }
        }
        pf.par_for_mask(0, N, m, fn);
        break;
    }
    case 4:
    case 5: {
        std::set<bitCapIntOcl> s;
        for (u64 k = g.below(600); k-- > 0;) {
            s.insert(g.below(SZ));
        }
        expect.assign(s.begin(), s.end());
        what = std::string("par_for_set(") + (kind == 4 ? "set of " : "vector of ") + num(s.size()) + ")";
        if (kind == 4) {
            pf.par_for_set(s, fn);
        } else {
            pf.par_for_set(std::vector<bitCapIntOcl>(s.begin(), s.end()), fn);
        }
        break;
    }
    case 6: {
        const int hs = g.range(0, 8);
        std::set<bitCapIntOcl> lo, hi;
        for (u64 k = 1 + g.below(40); k-- > 0;) {
            lo.insert(g.below((u64)1 << hs));
        }
        for (u64 k = g.below(30); k-- > 0;) {
            hi.insert(g.below((u64)1 << (16 - hs)));
        }
        for (u64 h : hi) {
            for (u64 l : lo) {
                expect.push_back(l | (h << hs));
            }
        }
        what = "par_for_sparse_compose(" + num(lo.size()) + ", " + num(hi.size()) + ", " + num(hs) + ")";
        pf.par_for_sparse_compose(std::vector<bitCapIntOcl>(lo.begin(), lo.end()),
            std::vector<bitCapIntOcl>(hi.begin(), hi.end()), (bitLenInt)hs, fn);
        break;
    }
    default: {
        // norms
        auto sv = std::make_shared<StateVectorArray>((bitCapIntOcl)N);
        double all = 0, floored = 0;
        const double th = g.chance(0.3) ? 0 : g.uni(0.001, 0.4);
        for (u64 i = 0; i < N; ++i) {
            const cd a(g.uni(-1, 1), g.uni(-1, 1));
            const complex z((real1)a.real(), (real1)a.imag());
            sv->write(i, z);
            const double nn = std::norm(cd(z.real(), z.imag()));
            if (std::fabs(nn - th) < 1e-5) {
                sv->write(i, complex(0, 0));
                continue;
            }
            all += nn;
            if (nn >= th) {
                floored += nn;
            }
        }
        const double e = (double)pf.par_norm_exact(N, sv), f = (double)pf.par_norm(N, sv, (real1_f)th);
        what = "par_norm(" + num(N) + ", threshold " + std::to_string(th) + ")";
        c.log.push_back(what + " stride 2^" + num(stridePow) + " threads " + num(nc));
        ++c.cnt["norms"];
        c.programs.insert(hashStr(c.log[0]));
        if (std::fabs(e - all) > 1e-3 + 1e-4 * all) {
            c.fail("par_norm_exact", what + ": exact norm " + std::to_string(e) + ", not " + std::to_string(all));
        }
        if (std::fabs(f - (th > 0 ? floored : all)) > 1e-3 + 1e-4 * all) {
            c.fail("par_norm", what + ": norm " + std::to_string(f) + ", not " + std::to_string(th > 0 ? floored : all));
        }
        return;
    }
    }
    what += " stride 2^" + num(stridePow) + " threads " + num(nc);
    c.log.push_back(what);
    c.programs.insert(hashStr(what));
    c.states.insert(mix(mix(hashStr(what.substr(0, 12)), (u64)peak * 64 + maxCpu), calls));
    ++c.cnt["loops"];
    c.cnt["body calls"] += calls;
    c.cnt["loops with overlapping bodies"] += peak > 1;
    c.cnt["max:overlap"] = std::max(c.cnt["max:overlap"], (long)peak);
    const std::string key = what.substr(0, what.find('('));
    if (bad & 1) {
        c.fail(key, what + ": two overlapping calls of the body had the same worker number");
    }
    if (bad & 2) {
        c.fail(key, what + ": visited an index beyond the end");
    }
    if (bad & 4) {
        c.fail(key, what + ": a worker number was not less than the number of workers");
    }
    std::vector<uint8_t> want(SZ, 0);
    for (u64 i : expect) {
        ++want[i];
    }
    for (size_t i = 0; i < SZ; ++i) {
        if (seen[i] != want[i]) {
            c.fail(key, what + ": index " + num(i) + " was visited " + num(seen[i]) + " times instead of " + num(want[i]));
            break;
        }
    }
});

// Event log of queue items: id = producer * 100000 + sequence number.
static RegCheck rDisp("dispatch", [](Case& c) {
    Rng& g = c.g;
    struct Shared {
        std::mutex m;
        std::vector<int> log;
        std::atomic<int> inflight{ 0 };
        std::atomic<int> overlap{ 0 };
        std::atomic<bool> dead{ false };
        std::atomic<int> after{ 0 };
    };
    auto sh = std::make_shared<Shared>();
    const int producers = g.chance(0.5) ? 1 : g.range(2, 4);
    const bool dumps = g.chance(0.4);
    const int events = g.range(3, 40);
    std::string desc = std::to_string(producers) + " producers, " + std::to_string(events) + " events" + (dumps ? ", dumps" : "");
    c.log.push_back(desc);
    u64 shape = hashStr(desc);
    std::vector<std::string> fails(producers);
    std::vector<std::vector<int>> sent(producers);
    std::vector<u64> seeds;
    for (int i = 0; i < producers; ++i) {
        seeds.push_back(g.next());
    }
    std::atomic<int> dumpsDone(0), finishes(0);
    const u64 endMode = g.below(3);
    {
        auto q = std::unique_ptr<DispatchQueue>(new DispatchQueue());
        auto body = [&](int me) {
            Rng r(seeds[me]);
            int seq = 0;
            for (int e = 0; e < events && fails[me].empty(); ++e) {
                const double z = r.unit();
                if (z < 0.65) {
                    const int id = me * 100000 + seq++;
                    const u64 h = r.next();
                    const bool nested = r.chance(0.05) && !dumps;
                    DispatchQueue* qp = q.get();
                    sent[me].push_back(id);
                    const int nid = nested ? me * 100000 + 50000 + seq : -1;
                    q->dispatch([sh, id, h, nested, nid, qp] {
                        if (sh->dead) {
                            ++sh->after;
                        }
                        if (++sh->inflight != 1) {
                            ++sh->overlap;
                        }
                        spin(h);
                        {
                            std::lock_guard<std::mutex> l(sh->m);
                            sh->log.push_back(id);
                        }
                        spin(h >> 20);
                        if (nested) {
                            qp->dispatch([sh, nid] {
                                std::lock_guard<std::mutex> l(sh->m);
                                sh->log.push_back(nid);
                            });
                        }
                        --sh->inflight;
                    });
                } else if (z < 0.8) {
                    q->finish();
                    ++finishes;
                    if (!dumps) {
                        std::lock_guard<std::mutex> l(sh->m);
                        std::set<int> s(sh->log.begin(), sh->log.end());
                        for (int id : sent[me]) {
                            if (!s.count(id)) {
                                fails[me] = "finish() returned before item " + std::to_string(id) + " was done";
                                break;
                            }
                        }
                    }
                } else if (z < 0.88 && dumps) {
                    q->dump();
                    ++dumpsDone;
                    if (producers == 1) {
                        if (sh->inflight) {
                            fails[me] = "dump() returned while an item was running";
                        }
                        size_t n;
                        {
                            std::lock_guard<std::mutex> l(sh->m);
                            n = sh->log.size();
                        }
                        spin(r.next());
                        std::lock_guard<std::mutex> l(sh->m);
                        if (sh->log.size() != n) {
                            fails[me] = "an item started after dump() returned";
                        }
                        // what is not in the log by now never runs
                        std::set<int> s(sh->log.begin(), sh->log.end());
                        std::vector<int> keep;
                        for (int id : sent[me]) {
                            if (s.count(id)) {
                                keep.push_back(id);
                            }
                        }
                        sent[me] = keep;
                        if (!q->isFinished()) {
                            fails[me] = "isFinished() is false after dump()";
                        }
                    }
                } else if (z < 0.95) {
                    if (q->isFinished() && producers == 1) {
                        std::lock_guard<std::mutex> l(sh->m);
                        std::set<int> s(sh->log.begin(), sh->log.end());
                        for (int id : sent[me]) {
                            if (!s.count(id)) {
                                fails[me] = "isFinished() is true before item " + std::to_string(id) + " was done";
                            }
                        }
                    }
                } else {
                    spin(r.next());
                }
            }
        };
        std::vector<std::thread> th;
        for (int i = 1; i < producers; ++i) {
            th.emplace_back(body, i);
        }
        body(0);
        for (auto& t : th) {
            t.join();
        }
        if (endMode) {
            q->finish();
        }
        q.reset();
        sh->dead = true;
    }
    std::this_thread::yield();
    for (auto& f : fails) {
        if (!f.empty()) {
            c.fail("queue", desc + ": " + f);
        }
    }
    std::lock_guard<std::mutex> l(sh->m);
    if (sh->overlap) {
        c.fail("queue", desc + ": two items ran at the same time");
    }
    if (sh->after || sh->inflight) {
        c.fail("queue", desc + ": an item ran after the queue was destroyed");
    }
    std::set<int> once;
    std::map<int, int> last;
    for (int id : sh->log) {
        if (!once.insert(id).second) {
            c.fail("queue", desc + ": item " + std::to_string(id) + " ran twice");
        }
        const int p = id / 100000;
        if (id % 100000 >= 50000) {
            continue; // nested items are queued by the worker
        }
        if (last.count(p) && last[p] >= id) {
            c.fail("queue", desc + ": item " + std::to_string(id) + " ran after item " + std::to_string(last[p]));
        }
        last[p] = id;
    }
    if (endMode && !(dumps && producers > 1)) {
        for (auto& v : sent) {
            for (int id : v) {
                if (!once.count(id)) {
                    c.fail("queue", desc + ": item " + std::to_string(id) + " never ran");
                }
            }
        }
    }
    c.cnt["items"] += sh->log.size();
    c.cnt["dumps"] += dumpsDone;
    c.cnt["finishes"] += finishes;
    u64 h = shape;
    for (int id : sh->log) {
        h = mix(h, (u64)id);
    }
    c.states.insert(h); // distinct orders of execution
    c.programs.insert(mix(shape, seeds[0]));
});
} // namespace vf
