// C10: CommMPI::exchangeAllToAllV on every send-count matrix / destination sequence up to a bound.
#include <cassert>
#include "mp.hpp"
#include "MPI/CommMPI.hpp"
using namespace mp;
template <int N>
struct Item { // N bytes of payload, trivially copyable
    unsigned char b[N];
};
struct Big {
    int src, seq;
    double v[4];
};
template <class T>
static T mk(int src, int dst, int seq) {
    T t;
    memset(&t, 0, sizeof t);
    uint64_t h = vp::mix(vp::mix(vp::mix(7, src + 1), dst + 1), seq + 1);
    unsigned char *c = (unsigned char *)&t;
    for (size_t i = 0; i < sizeof t; i++) {
        c[i] = (unsigned char)(h >> 24);
        h = h * 6364136223846793005ull + 1442695040888963407ull;
    }
    return t;
}
// dest[r] = destination sequence of rank r
template <class T>
static void run(CommMPI &c, const std::string &key, const std::vector<std::vector<int>> &dest, std::vector<int> &src,
                std::vector<T> &rec) {
    if (!vp::begin(key))
        return;
    std::vector<int> d = dest[rank];
    std::vector<T> send;
    for (size_t i = 0; i < d.size(); i++)
        send.push_back(mk<T>(rank, d[i], (int)i));
    c.exchangeAllToAllV(d, send, src, rec);
    size_t k = 0;
    uint64_t h = 3;
    bool bad = false;
    for (int r = 0; r < np && !bad; r++)
        for (size_t i = 0; i < dest[r].size(); i++)
            if (dest[r][i] == rank) {
                if (k >= rec.size() || k >= src.size()) {
                    vp::fail("received %zu items, more expected", rec.size());
                    bad = true;
                    break;
                }
                T e = mk<T>(r, rank, (int)i);
                VP_CHECK(memcmp(&e, &rec[k], sizeof e) == 0, "item %zu is not item %zu of rank %d", k, i, r);
                VP_CHECK(src[k] == r, "item %zu: source %d instead of %d", k, src[k], r);
                h = vp::mix(h, r * 100 + i);
                k++;
            }
    VP_CHECK(bad || (rec.size() == k && src.size() == k), "received %zu items and %zu sources instead of %zu", rec.size(), src.size(), k);
    size_t tot = 0;
    for (auto &v : dest)
        tot += v.size();
    if (tot)
        vp::nontrivial();
    vp::outcome(h);
    vp::S().states++;
    vp::S().transitions += tot;
    vp::S().traces++;
}
int main(int argc, char **argv) {
    start(argc, argv);
    {
        CommMPI c; // one object for the whole history of exchanges
        VP_CHECK(c.getRank() == rank && c.getSize() == np, "rank/size wrong");
        std::vector<int> src;
        std::vector<int> r1;
        std::vector<Item<1>> r2;
        std::vector<Item<12>> r3;
        std::vector<Big> r4;
        auto any = [&](int t, const std::string &k, const std::vector<std::vector<int>> &d) {
            switch (t) {
            case 0:
                return run<int>(c, "i4 " + k, d, src, r1);
            case 1:
                return run<Item<1>>(c, "i1 " + k, d, src, r2);
            case 2:
                return run<Item<12>>(c, "i12 " + k, d, src, r3);
            default:
                return run<Big>(c, "big " + k, d, src, r4);
            }
        };
        int turn = 0;
        // every count matrix
        const int E = np * np;
        const int top = np <= 2 ? 6 : np == 3 ? 3 : np == 4 ? 2 : 1;
        const uint64_t cap = vp::S().thorough ? 400000 : 40000;
        uint64_t all = 1;
        bool full = true;
        for (int i = 0; i < E; i++) {
            all *= top;
            if (all > cap) {
                full = false;
                break;
            }
        }
        auto matrix = [&](const std::string &k, const std::vector<int> &m, int t, int order) {
            std::vector<std::vector<int>> d(np);
            for (int r = 0; r < np; r++) {
                std::vector<int> left(m.begin() + r * np, m.begin() + (r + 1) * np);
                for (bool more = true; more;) { // grouped ascending, descending or interleaved
                    more = false;
                    for (int q = 0; q < np; q++) {
                        int e = order == 1 ? np - 1 - q : q;
                        if (order < 2)
                            while (left[e] > 0) {
                                d[r].push_back(e);
                                left[e]--;
                            }
                        else if (left[e] > 0) {
                            d[r].push_back(e);
                            left[e]--;
                            more = true;
                        }
                    }
                }
            }
            any(t, k, d);
        };
        if (full)
            for (uint64_t v = 0; v < all; v++) {
                std::vector<int> m(E);
                uint64_t w = v;
                for (auto &x : m) {
                    x = w % top;
                    w /= top;
                }
                std::string k = "m";
                for (int x : m)
                    k += char('0' + x);
                for (int o = 0; o < 3; o++)
                    matrix(k + vp::fmt(" o%d", o), m, (turn++) % 4, o);
            }
        else { // all matrices with at most 3 non-empty entries of size 1..3
            for (int a = 0; a < E; a++)
                for (int b = a; b < E; b++)
                    for (int e = b; e < E; e++) {
                        std::vector<int> m(E, 0);
                        m[a] += 1;
                        m[b] += 1;
                        m[e] += 2;
                        std::string k = vp::fmt("s%d,%d,%d", a, b, e);
                        matrix(k, m, (turn++) % 4, 2);
                    }
        }
        // every destination sequence up to a length, on rank pairs
        const int L = np <= 2 ? 4 : np == 3 ? 3 : 2;
        std::vector<std::vector<int>> seqs(1);
        for (size_t i = 0; i < seqs.size(); i++)
            if ((int)seqs[i].size() < L)
                for (int q = 0; q < np; q++) {
                    auto s = seqs[i];
                    s.push_back(q);
                    seqs.push_back(s);
                }
        for (int ra = 0; ra < np; ra++)
            for (int rb = ra + 1; rb <= np; rb++)
                for (size_t i = 0; i < seqs.size(); i++)
                    for (size_t j = 0; j < seqs.size(); j++) {
                        if (rb == np && j)
                            continue;
                        std::vector<std::vector<int>> d(np);
                        d[ra] = seqs[i];
                        if (rb < np)
                            d[rb] = seqs[j];
                        any((turn++) % 4, vp::fmt("q r%d.%zu r%d.%zu", ra, i, rb, j), d);
                    }
        // large uneven exchanges
        for (int n : {100, 1000, 5000})
            for (int pat = 0; pat < 6; pat++)
                for (int t = 0; t < 4; t++) {
                    std::vector<std::vector<int>> d(np);
                    for (int r = 0; r < np; r++)
                        for (int i = 0; i < n * (pat == 5 ? r : 1); i++) {
                            int q = pat == 0 ? i % np : pat == 1 ? (i * i + r) % np : pat == 2 ? 0 : pat == 3 ? r : pat == 4 ? np - 1 : (i / 7 + r) % np;
                            d[r].push_back(q);
                        }
                    any(t, vp::fmt("large n%d p%d", n, pat), d);
                }
    }
    stop();
}
