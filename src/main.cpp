// qv CHECK --seed S --from A --to B [--budget SECONDS] [--hashes FILE] [--verbose]
// Runs cases A..B-1 of a check. Lines: "C <idx>" before a case, "V <idx> <key>\t<text>" for a violation followed by
// "L <line>"..., "S {json}" at the end. Exit 0 always unless it crashes.
#include "harness.hpp"
#include <chrono>
#include <cstring>
#include <iostream>
namespace vf {
std::map<std::string, CaseFn>& checks()
{
    static std::map<std::string, CaseFn> m;
    return m;
}
} // namespace vf
using namespace vf;
static std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
        }
        r += (c == '\n' || c == '\t' || c == '\r') ? ' ' : c;
    }
    return r;
}
int main(int argc, char** argv)
{
    if (argc < 2) {
        for (auto& c : checks()) {
            puts(c.first.c_str());
        }
        return 0;
    }
    u64 seed = 1, from = 0, to = 1, step = 1;
    double budget = 1e9;
    bool verbose = false, thorough = false;
    std::string hashes;
    for (int i = 2; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--verbose") {
            verbose = true;
        } else if (a == "--thorough") {
            thorough = true;
        } else if (i + 1 < argc) {
            const char* v = argv[++i];
            if (a == "--seed") {
                seed = strtoull(v, nullptr, 10);
            } else if (a == "--from") {
                from = strtoull(v, nullptr, 10);
            } else if (a == "--to") {
                to = strtoull(v, nullptr, 10);
            } else if (a == "--step") {
                step = strtoull(v, nullptr, 10);
            } else if (a == "--budget") {
                budget = atof(v);
            } else if (a == "--hashes") {
                hashes = v;
            }
        }
    }
    auto it = checks().find(argv[1]);
    if (it == checks().end()) {
        fprintf(stderr, "no such check: %s\n", argv[1]);
        return 2;
    }
    const u64 salt = hashStr(argv[1]);
    std::map<std::string, long> cnt;
    std::unordered_set<u64> states, programs;
    const auto t0 = std::chrono::steady_clock::now();
    u64 ran = 0;
    long viols = 0;
    std::string sample;
    for (u64 i = from; i < to; i += step) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) {
            break;
        }
        printf("C %llu\n", (unsigned long long)i);
        fflush(stdout);
        Case c(seed, i, salt, cnt, states, programs);
        c.verbose = verbose;
        c.thorough = thorough;
        try {
            it->second(c);
        } catch (const std::exception& e) {
            c.fail("uncaught", std::string("uncaught exception: ") + e.what());
        }
        ++ran;
        if (sample.empty() || i % 97 == 0) {
            sample = "";
            for (size_t k = 0; k < c.log.size() && k < 12; ++k) {
                sample += c.log[k] + "; ";
            }
        }
        if (!c.violation.empty()) {
            printf("V %llu %s\t%s\n", (unsigned long long)i, esc(c.key).c_str(), esc(c.violation).c_str());
            for (auto& l : c.log) {
                printf("L %s\n", esc(l).c_str());
            }
            fflush(stdout);
            if (++viols >= 8) {
                ++ran;
                break;
            }
        }
    }
    if (!hashes.empty()) {
        FILE* f = fopen(hashes.c_str(), "wb");
        if (f) {
            for (int k = 0; k < 2; ++k) {
                auto& s = k ? programs : states;
                u64 n = s.size();
                fwrite(&n, 8, 1, f);
                for (u64 h : s) {
                    fwrite(&h, 8, 1, f);
                }
            }
            fclose(f);
        }
    }
    printf("S {\"cases\": %llu, \"counters\": {", (unsigned long long)ran);
    bool first = true;
    for (auto& e : cnt) {
        printf("%s\"%s\": %ld", first ? "" : ", ", esc(e.first).c_str(), e.second);
        first = false;
    }
    printf("}, \"sample\": \"%s\"}\n", esc(sample).c_str());
    fflush(stdout);
    return 0;
}
