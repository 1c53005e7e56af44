// C23: the random number pool of every rank of every job size and thread count, in one process: the ranks are simulated by answering the MPI queries, and
// every element of the underlying sequence that is used is recorded.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <mpi.h>
#include <mutex>
#include <omp.h>
#include <set>
#include <vector>
static int fakeRank = 0, fakeSize = 1, fakeInit = 0;
extern "C" {
int MPI_Initialized(int *f) { return *f = fakeInit, 0; }
int MPI_Comm_rank(MPI_Comm, int *r) { return *r = fakeRank, 0; }
int MPI_Comm_size(MPI_Comm, int *s) { return *s = fakeSize, 0; }
}
#include "Util/TRngPool.hpp"
#include "vp.hpp"

typedef std::pair<unsigned long, unsigned long long> Elem;
static std::mutex mtx;
static std::vector<Elem> used;
static void hook(const void *, unsigned long seed, unsigned long long pos) {
    std::lock_guard<std::mutex> g(mtx);
    used.push_back({seed, pos});
}
static double grid = -1;
static unsigned long gridN = 0;
static bool script(unsigned long, unsigned long long, double &u) {
    if (grid < 0)
        return false;
    u = grid;
    return true;
}
static double draw(TRngPool &p, int t, int op, bool byThread) {
    if (byThread)
        return op == 0 ? p.getU01() : op == 1 ? p.getN01() : p.getLN();
    return op == 0 ? p.getU01(t) : op == 1 ? p.getN01(t) : p.getLN(t);
}
static void range(double v, int op) {
    VP_CHECK(std::isfinite(v), "draw %d gives %g", op, v);
    if (op == 0)
        VP_CHECK(v >= 0 && v < 1, "uniform number %.17g", v);
    if (op == 2)
        VP_CHECK(v > 0, "log-normal number %.17g", v);
}
static void disjoint(std::vector<Elem> all, const char *what) {
    size_t n = all.size();
    std::sort(all.begin(), all.end());
    size_t d = std::unique(all.begin(), all.end()) - all.begin();
    VP_CHECK(d == n, "%s: %zu elements of the sequence are used, %zu of them more than once", what, n, n - d);
    bool one = true;
    for (auto &e : all)
        one &= e.first == all[0].first;
    VP_CHECK(one, "%s: the streams belong to different sequences", what);
}

int main(int argc, char **argv) {
    vp::init(argc, argv, 0);
    const bool thorough = vp::S().thorough;
    fakeInit = 1; // the constructors of the MPI library itself ask before
    trng::stub::hook() = hook;
    trng::stub::script() = script;
    const int seeds[] = {0, 1, 12345, 2147483647};
    // every job layout: all streams together
    const int maxP = thorough ? 16 : 9, maxT = thorough ? 16 : 8;
    for (int seed : seeds)
        for (int P = 1; P <= maxP; P++)
            for (int T = 1; T <= maxT; T++)
                for (int pat = 0; pat < 4; pat++) { // uniform, normal, log-normal, all in turn
                    if (!vp::begin(vp::fmt("layout seed=%d ranks=%d threads=%d draws=%d", seed, P, T, pat)))
                        continue;
                    vp::S().states++;
                    omp_set_num_threads(T);
                    std::vector<double> values[2];
                    for (int rep = 0; rep < 2; rep++) {
                        used.clear();
                        std::set<std::vector<Elem>> streams;
                        for (int r = 0; r < P; r++) {
                            fakeRank = r, fakeSize = P;
                            TRngPool pool(seed);
                            size_t before = used.size();
                            std::vector<std::vector<double>> v(T);
                            if (rep) { // from inside a parallel region
#pragma omp parallel num_threads(T)
                                for (int k = 0; k < 12; k++)
                                    v[omp_get_thread_num()].push_back(draw(pool, 0, pat < 3 ? pat : k % 3, true));
                            } else
                                for (int t = 0; t < T; t++)
                                    for (int k = 0; k < 12; k++)
                                        v[t].push_back(draw(pool, t, pat < 3 ? pat : k % 3, false));
                            for (int t = 0; t < T; t++)
                                for (int k = 0; k < 12; k++) {
                                    range(v[t][k], pat < 3 ? pat : k % 3);
                                    values[rep].push_back(v[t][k]);
                                    vp::S().transitions++;
                                }
                            VP_CHECK(used.size() - before >= size_t(12 * T), "rank %d uses %zu elements for %d numbers", r, used.size() - before, 12 * T);
                        }
                        disjoint(used, rep ? "parallel region" : "by thread id");
                        vp::count("elements", used.size());
                        vp::S().traces++;
                    }
                    VP_CHECK(values[0] == values[1], "the same seed gives other numbers the second time");
                    std::vector<double> s = values[0];
                    std::sort(s.begin(), s.end());
                    VP_CHECK(std::unique(s.begin(), s.end()) == s.end(), "numbers are repeated");
                    if (P * T > 1)
                        vp::nontrivial();
                    vp::outcome(vp::mix(vp::fnv(values[0].data(), values[0].size() * 8), 1));
                }
    // without MPI
    for (int T = 1; T <= maxT; T++) {
        if (!vp::begin(vp::fmt("no MPI threads=%d", T)))
            continue;
        fakeInit = 0;
        omp_set_num_threads(T);
        used.clear();
        TRngPool pool(7);
        for (int t = 0; t < T; t++)
            for (int k = 0; k < 20; k++)
                range(draw(pool, t, k % 3, false), k % 3);
        disjoint(used, "no MPI");
        fakeInit = 1;
    }
    // long streams
    for (int P : {1, 3, 8})
        for (int T : {1, 2, 8}) {
            if (!vp::begin(vp::fmt("long ranks=%d threads=%d", P, T)))
                continue;
            used.clear();
            omp_set_num_threads(T);
            for (int r = 0; r < P; r++) {
                fakeRank = r, fakeSize = P;
                TRngPool pool(99);
                for (int t = 0; t < T; t++)
                    for (int k = 0; k < 3000 + 1000 * ((r + t) % 3); k++) // the streams do not advance together
                        draw(pool, t, k % 3, false);
            }
            disjoint(used, "long");
            vp::count("elements", used.size());
        }
    // every interleaving of the draws of three threads up to a depth: the numbers of a thread depend on its own draws only
    const int depth = thorough ? 7 : 5;
    fakeRank = 1, fakeSize = 3;
    omp_set_num_threads(3);
    std::map<std::pair<int, std::vector<int>>, double> seen; // thread, its operations so far -> number
    long total = 1;
    for (int d = 1; d <= depth; d++) {
        total *= 9;
        for (long code = 0; code < total; code++) {
            if (d < depth && code % 9 != 0 && d > 3)
                continue; // the prefixes of the longest sequences
            if (!vp::begin(vp::fmt("order depth=%d %ld", d, code)))
                continue;
            vp::S().states++;
            used.clear();
            TRngPool pool(5);
            std::vector<int> hist[3];
            long c = code;
            for (int k = 0; k < d; k++, c /= 9) {
                int t = c % 9 / 3, op = c % 3;
                hist[t].push_back(op);
                double v = draw(pool, t, op, false);
                auto it = seen.insert({{t, hist[t]}, v});
                VP_CHECK(it.first->second == v, "thread %d gets %g as its number %zu, in another order it gets %g", t, v, hist[t].size(), it.first->second);
                vp::S().transitions++;
            }
            disjoint(used, "order");
            vp::S().traces++;
            vp::nontrivial();
            vp::outcome(vp::mix(code, d));
        }
    }
    // distributions: every point of a grid over the unit interval as the underlying number
    const double mus[] = {-2, -0.5, 0, 0.7, 1.5}, sigmas[] = {0.05, 0.3, 1, 1.7};
    fakeRank = 0, fakeSize = 1;
    omp_set_num_threads(2);
    for (double mu : mus)
        for (double sg : sigmas) {
            if (!vp::begin(vp::fmt("distribution mu=%g sigma=%g", mu, sg)))
                continue;
            TRngPool pool(5);
            pool.setLogNormalParameters(mu, sg);
            const int N = 20000;
            double u1 = 0, u2 = 0, n1 = 0, n2 = 0, l1 = 0, l2 = 0, med = 0;
            for (int t = 0; t < 2; t++)
                for (int k = 0; k < N; k++) {
                    grid = (k + 0.5) / N;
                    double u = pool.getU01(t), n = pool.getN01(t), l = pool.getLN(t);
                    range(u, 0), range(n, 1), range(l, 2);
                    u1 += u / (2 * N), u2 += u * u / (2 * N), n1 += n / (2 * N), n2 += n * n / (2 * N);
                    l = std::log(l);
                    l1 += l / (2 * N), l2 += l * l / (2 * N);
                    if (k == N / 2)
                        med = l;
                }
            for (double e : {1.2e-16, 1 - 1.2e-16, 0.5}) {
                grid = e;
                range(pool.getU01(0), 0), range(pool.getN01(0), 1), range(pool.getLN(0), 2);
            }
            grid = -1;
            VP_CHECK(vp::near(u1, 0.5, 1e-3) && vp::near(u2, 1 / 3.0, 1e-3), "uniform numbers have moments %g %g", u1, u2);
            VP_CHECK(vp::near(n1, 0, 2e-3) && vp::near(n2, 1, 5e-3), "normal numbers have mean %g and variance %g", n1, n2);
            VP_CHECK(vp::near(l1, mu, 3e-3 * (1 + sg)) && vp::near(std::sqrt(std::max(0.0, l2 - l1 * l1)), sg, 4e-3 * (1 + sg)) && vp::near(med, mu, 1e-2),
                     "the logarithm has mean %g and deviation %g, requested are %g and %g", l1, std::sqrt(l2 - l1 * l1), mu, sg);
            vp::nontrivial();
            vp::count("distributions");
        }
    vp::done();
    vp::finish();
}
