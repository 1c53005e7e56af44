// Shared harness runtime: case enumeration bookkeeping, outcome counting, replay filter, result file.
// Every harness enumerates a finite space deterministically; a "case" is one explored execution and has a
// stable textual key.  The runner (check.py) starts the harness, merges the result files of all ranks,
// replays a failing case alone before reporting it and writes the evidence file.
#ifndef VP_HPP_
#define VP_HPP_
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp {

inline std::string vfmt(const char *f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}

struct State {
    std::string out, only, tier = "quick";
    int rank = 0;
    bool thorough = false;
    uint64_t evaluations = 0, states = 0, transitions = 0, traces = 0;
    std::unordered_set<uint64_t> outcomes;
    std::unordered_set<uint64_t> cases; // hash of non trivial case keys
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> violations; // key, message
    std::map<std::string, uint64_t> counters;
    std::set<std::string> violKeys;
    std::string cur;
    char *progress = nullptr;
    uint64_t sampleStride = 1;
    bool finished = false;
};
inline State &S() {
    static State s;
    return s;
}

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

inline std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r;
}

inline void finish() {
    State &s = S();
    if (s.finished)
        return;
    s.finished = true;
    if (s.out.empty())
        return;
    std::string fn = s.out + "." + std::to_string(s.rank);
    FILE *f = fopen(fn.c_str(), "w");
    if (!f) {
        perror(fn.c_str());
        _exit(3);
    }
    fprintf(f, "{\"evaluations\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"outcomes\":%zu,\"cases\":%zu,\n",
            (unsigned long long)s.evaluations, (unsigned long long)s.states, (unsigned long long)s.transitions,
            (unsigned long long)s.traces, s.outcomes.size(), s.cases.size());
    fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto &kv : s.counters) {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "},\n\"samples\":[");
    for (size_t i = 0; i < s.samples.size(); i++)
        fprintf(f, "%s\"%s\"", i ? "," : "", esc(s.samples[i]).c_str());
    fprintf(f, "],\n\"violations\":[");
    for (size_t i = 0; i < s.violations.size(); i++)
        fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", esc(s.violations[i].first).c_str(),
                esc(s.violations[i].second).c_str());
    fprintf(f, "],\n\"complete\":true}\n");
    fclose(f);
}

inline void init(int argc, char **argv, int rank = 0) {
    State &s = S();
    s.rank = rank;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out" && i + 1 < argc)
            s.out = argv[++i];
        else if (a == "--only" && i + 1 < argc)
            s.only = argv[++i];
        else if (a == "--tier" && i + 1 < argc)
            s.tier = argv[++i];
    }
    s.thorough = s.tier == "thorough";
    if (!s.out.empty()) {
        std::string fn = s.out + ".progress." + std::to_string(rank);
        int fd = open(fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 8192) == 0) {
            void *p = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED)
                s.progress = (char *)p;
        }
        if (fd >= 0)
            close(fd);
    }
}

// begin a case.  Returns false when a replay filter excludes it.
inline bool begin(const std::string &key) {
    State &s = S();
    if (!s.only.empty() && s.only != key && !(s.only.back() == '*' && !std::string(key).compare(0, s.only.size() - 1, s.only, 0, s.only.size() - 1)))
        return false;
    s.cur = key;
    if (s.progress) {
        size_t n = std::min<size_t>(key.size(), 8000);
        memcpy(s.progress, key.data(), n);
        s.progress[n] = 0;
    }
    s.evaluations++;
    if (s.samples.size() < 4 || (s.samples.size() < 16 && s.evaluations % s.sampleStride == 0)) {
        s.samples.push_back(key);
        s.sampleStride *= 4;
    }
    return true;
}
inline void nontrivial() { S().cases.insert(fnv(S().cur)); }
inline void outcome(uint64_t h) { S().outcomes.insert(h); }
inline void outcome(const std::string &o) { S().outcomes.insert(fnv(o)); }
inline void count(const std::string &c, uint64_t n = 1) { S().counters[c] += n; }
inline void done() {
    if (S().progress)
        S().progress[0] = 0;
}

// report a violation of the property by the current case
inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string m = vfmt(f, ap);
    va_end(ap);
    State &s = S();
    s.counters["violating_checks"]++;
    if (!s.violKeys.insert(s.cur).second)
        return; // one message per case
    if (s.violations.size() < 5000)
        s.violations.emplace_back(s.cur, m);
    if (s.violations.size() <= 5)
        fprintf(stderr, "[rank %d] FAIL %s: %s\n", s.rank, s.cur.c_str(), m.c_str());
}
#define VP_CHECK(cond, ...)                                                                                            \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            ::vp::fail(__VA_ARGS__);                                                                                   \
    } while (0)

inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; } // false for NaN
inline bool tooMany() { return S().violations.size() >= 5000; }

// canonical rounding for outcome hashes
inline long long rnd(double x, double q = 1e-7) { return std::isfinite(x) ? llround(x / q) : (1ll << 62); }

} // namespace vp
#endif
