// C09: histories of builds and lookups of the distributed directory against a plain map.
#include "mp.hpp"
#include "Trilinos/ZDD.hpp"
using namespace mp;
struct D24 {
    int id, ver;
    double x, y;
};
struct D5 {
    unsigned char b[5];
};
template <class T>
static T mk(unsigned id, int ver) {
    T t;
    memset(&t, 0, sizeof t);
    uint64_t h = vp::mix(vp::mix(11, id), ver);
    unsigned char *c = (unsigned char *)&t;
    for (size_t i = 0; i < sizeof t; i++) {
        c[i] = (unsigned char)(h >> 24);
        h = h * 6364136223846793005ull + 1442695040888963407ull;
    }
    return t;
}
// one step of a history: owner[i] = rank that registers id i (-1: nobody), req[r] = ids requested by rank r
struct Step {
    std::vector<int> owner;
    std::vector<std::vector<int>> req;
    bool reverse = false; // registration order
};
static unsigned gidOf(int i, int base) { return base == 0 ? i : base == 1 ? 1000000007u * (i + 1) % 2147483647u : 2147483600u + i; }
template <class T>
static void run(const std::string &key, const std::vector<Step> &steps, int base, bool stale) {
    if (!vp::begin(key))
        return;
    {
        ZDD<T> z(rank == 0 ? 16 : 0);
        std::map<int, int> last; // id -> version of its data
        int ver = 0;
        uint64_t h = 5;
        for (auto &s : steps) {
            ver++;
            z.gidOnLocal.clear();
            z.dataOnLocal.clear();
            const int n = s.owner.size();
            for (int k = 0; k < n; k++) {
                int i = s.reverse ? n - 1 - k : k;
                if (s.owner[i] >= 0)
                    last[i] = ver;
                if (s.owner[i] == rank) {
                    z.gidOnLocal.push_back(gidOf(i, base));
                    z.dataOnLocal.push_back(mk<T>(i, ver));
                }
            }
            z.buildIndex();
            z.gidToFind.clear();
            if (stale) // leftovers of an earlier lookup
                z.dataToFind.assign(s.req[rank].size() + 3, mk<T>(99, 99));
            else
                z.dataToFind.clear();
            for (int i : s.req[rank])
                z.gidToFind.push_back(gidOf(i, base));
            z.find();
            VP_CHECK(z.gidToFind.size() == s.req[rank].size() && z.dataToFind.size() >= s.req[rank].size(), "result size %zu", z.dataToFind.size());
            for (size_t k = 0; k < s.req[rank].size() && k < z.dataToFind.size(); k++) {
                int i = s.req[rank][k];
                T e = mk<T>(i, last[i]);
                VP_CHECK(memcmp(&e, &z.dataToFind[k], sizeof e) == 0, "step %d request %zu (id %d): not the registered data", ver, k, i);
                VP_CHECK(z.gidToFind[k] == gidOf(i, base), "request list changed");
                h = vp::mix(h, i * 16 + last[i]);
            }
            vp::S().transitions += 2;
        }
        vp::S().traces++;
        vp::S().states += steps.size();
        vp::outcome(h);
        vp::nontrivial();
    }
}
template <class T>
static void all(const char *ty) {
    const bool th = vp::S().thorough;
    // request patterns
    const int K = np <= 2 ? 4 : 3;
    auto pats = [&](int n) {
        std::vector<std::vector<std::vector<int>>> P;
        std::vector<std::vector<int>> p(np);
        P.push_back(p); // nobody asks
        for (int r = 0; r < np; r++)
            for (int i = 0; i < n; i++)
                p[r].push_back(i);
        P.push_back(p); // everybody asks for everything
        for (auto &v : p) {
            std::vector<int> w;
            for (int i = n; i-- > 0;) {
                w.push_back(v[i]);
                w.push_back(v[i]);
                w.push_back(v[(i + 1) % n]);
            }
            v = w;
        }
        P.push_back(p); // reversed with duplicates
        for (int r = 0; r < np; r++) {
            std::vector<std::vector<int>> q(np);
            q[r] = {n - 1, 0, n - 1};
            P.push_back(q); // only one rank asks
        }
        return P;
    };
    // all pairs of ownership maps: build, find, rebuild with moved ids and new data, find
    std::vector<std::vector<int>> maps(1, std::vector<int>());
    for (int i = 0; i < K; i++) {
        std::vector<std::vector<int>> m2;
        for (auto &m : maps)
            for (int r = 0; r < np; r++) {
                m2.push_back(m);
                m2.back().push_back(r);
            }
        maps = m2;
    }
    auto P = pats(K);
    uint64_t turn = 0;
    const size_t stride2 = th || maps.size() <= 32 ? 1 : maps.size() <= 128 ? 5 : 23;
    for (size_t a = 0; a < maps.size(); a++)
        for (size_t b = a % stride2; b < maps.size(); b += stride2)
            for (size_t p = 0; p < P.size(); p++) {
                turn++;
                std::vector<Step> h;
                h.push_back({maps[a], P[p], false});
                h.push_back({maps[b], P[(p + 1) % P.size()], true});
                run<T>(vp::fmt("%s own%zu own%zu req%zu", ty, a, b, p), h, turn % 3, turn % 2);
            }
    // partial rebuilds (entries of other ids stay), three steps
    if (maps.size() > 0)
        for (size_t a = 0; a < maps.size(); a += 3)
            for (int mask = 0; mask < (1 << K); mask++) {
                auto m = maps[maps.size() - 1 - a];
                for (int i = 0; i < K; i++)
                    if (!(mask >> i & 1))
                        m[i] = -1;
                std::vector<Step> h;
                h.push_back({maps[a], P[1], false});
                h.push_back({m, P[2], false});
                h.push_back({maps[(a * 7 + mask) % maps.size()], P[1], true});
                run<T>(vp::fmt("%s partial own%zu mask%d", ty, a, mask), h, mask % 3, mask % 2);
            }
    // larger directories
    for (int n : {17, 100, 1000})
        for (int pat = 0; pat < 5; pat++) {
            std::vector<Step> h;
            for (int s = 0; s < 3; s++) {
                Step st;
                st.req.resize(np);
                for (int i = 0; i < n; i++)
                    st.owner.push_back(pat == 0 ? (i + s) % np : pat == 1 ? (i * i + s) % np : pat == 2 ? s % np : pat == 3 ? (i < n / 2 ? 0 : np - 1) : (i / 3) % np);
                for (int r = 0; r < np; r++)
                    for (int i = 0; i < n * (pat == 4 ? r : 1); i++)
                        st.req[r].push_back((i * 37 + r * 11 + s) % n);
                st.reverse = s == 1;
                h.push_back(st);
            }
            run<T>(vp::fmt("%s large n%d p%d", ty, n, pat), h, pat % 3, pat % 2);
        }
}
int main(int argc, char **argv) {
    start(argc, argv);
    all<int>("i4");
    all<D24>("d24");
    all<D5>("d5");
    stop();
}
