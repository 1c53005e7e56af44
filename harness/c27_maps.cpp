// C27: maps, vectors and their dumps for every pattern of local sizes / owned indices over the ranks.
#include <algorithm>
#include <mpi.h>
#include <numeric>
#include <fstream>
#include <sstream>

#include "Trilinos/TpetraUtil.hpp"
#include "Util/Logger.hpp"

#include "dense.hpp"
#include "mp.hpp"
#include "vp.hpp"

static int rk, np_;
static Teuchos::RCP<const TCOMM> comm;
static double val(int tag, int rank, int i) { // distinct, exactly representable and not
    return (i % 7 == 3 ? -0.0 : 1.0) * (tag * 1000.0 + rank * 31 + i) + (i % 3 ? 1.0 / (3 + i + rank) : 0) + (i % 5 == 4 ? 1e-9 * (i + 1) : 0);
}
static std::string pat(const std::vector<int> &s) {
    std::string r;
    for (int x : s)
        r += vp::fmt("%s%d", r.empty() ? "" : ",", x);
    return r;
}
static int off(const std::vector<int> &s, int r) { return std::accumulate(s.begin(), s.begin() + r, 0); }
static int tot(const std::vector<int> &s) { return off(s, (int)s.size()); }

static std::vector<double> local(const Teuchos::RCP<const TV> &v) {
    auto h = v->getLocalViewHost();
    std::vector<double> r(h.dimension_0());
    for (size_t i = 0; i < r.size(); i++)
        r[i] = h(i, 0);
    return r;
}

static void checkMap(const Teuchos::RCP<const TMAP> &m, const std::vector<int> &own, int global, bool contiguous) {
    VP_CHECK((int)m->getGlobalNumElements() == global, "%d entries over all ranks instead of %d", (int)m->getGlobalNumElements(), global);
    VP_CHECK((int)m->getNodeNumElements() == (int)own.size(), "%d entries on rank %d instead of %d", (int)m->getNodeNumElements(), rk, (int)own.size());
    if (m->getNodeNumElements() != own.size())
        return;
    if (contiguous)
        VP_CHECK(m->isContiguous(), "not contiguous");
    VP_CHECK(m->getIndexBase() == 0, "index base %d", (int)m->getIndexBase());
    for (size_t i = 0; i < own.size(); i++) {
        VP_CHECK(m->getGlobalElement((int)i) == own[i], "entry %zu of rank %d is global entry %d instead of %d", i, rk, m->getGlobalElement((int)i), own[i]);
        VP_CHECK(m->getLocalElement(own[i]) == (int)i, "global entry %d is local entry %d instead of %zu", own[i], m->getLocalElement(own[i]), i);
    }
    std::set<int> mine(own.begin(), own.end());
    for (int g = 0; g < global; g++)
        VP_CHECK(m->isNodeGlobalElement(g) == (mine.count(g) > 0), "rank %d %s entry %d", rk, m->isNodeGlobalElement(g) ? "claims" : "does not know", g);
    VP_CHECK(m->getComm()->getSize() == np_ && m->getComm()->getRank() == rk, "communicator of %d ranks", m->getComm()->getSize());
}

static std::vector<std::vector<int>> sizes(const std::vector<int> &a) {
    std::vector<std::vector<int>> r{{}};
    for (int k = 0; k < np_; k++) {
        std::vector<std::vector<int>> n;
        for (auto &s : r)
            for (int x : a) {
                n.push_back(s);
                n.back().push_back(x);
            }
        r = n;
    }
    return r;
}

// MatrixMarket array file: the values
static bool mmArray(const std::string &fn, std::vector<double> &v, std::string &err) {
    std::ifstream f(fn);
    std::string l;
    if (!std::getline(f, l) || l.compare(0, 14, "%%MatrixMarket") != 0) {
        err = "no header in " + fn;
        return false;
    }
    while (f.peek() == '%')
        std::getline(f, l);
    long n = -1, c = -1;
    f >> n >> c;
    v.clear();
    double x;
    while (f >> x)
        v.push_back(x);
    if (n * c != (long)v.size()) {
        err = vp::fmt("%ld x %ld announced, %zu values", n, c, v.size());
        return false;
    }
    return true;
}

static void oneBlock(const std::vector<int> &s) {
    auto m = getTMAPFromLocalSize(s[rk], comm);
    std::vector<int> own(s[rk]);
    std::iota(own.begin(), own.end(), off(s, rk));
    checkMap(m, own, tot(s), true);
    std::vector<double> in(s[rk]);
    for (int i = 0; i < s[rk]; i++)
        in[i] = val(1, rk, i);
    auto v = getTVFromVector(in, comm);
    checkMap(v->getMap(), own, tot(s), true);
    auto keep = in;
    for (auto &x : in) // the vector is a copy
        x = -7;
    auto got = local(v);
    VP_CHECK(got.size() == keep.size(), "vector of %zu entries on rank %d from %zu values", got.size(), rk, keep.size());
    for (size_t i = 0; i < std::min(got.size(), keep.size()); i++)
        VP_CHECK(!memcmp(&got[i], &keep[i], 8), "entry %zu of rank %d is %.17g instead of %.17g", i, rk, got[i], keep[i]);
    double sum = 0, ref = 0;
    for (int r = 0; r < np_; r++)
        for (int i = 0; i < s[r]; i++)
            ref += val(1, r, i) * val(1, r, i);
    if (tot(s))
        sum = v->dot(*v);
    VP_CHECK(vp::near(sum, ref, 1e-12 * (1 + ref)), "squared norm over all ranks %.17g instead of %.17g", sum, ref);
}

static void dumps(const std::vector<int> &s, const std::vector<int> &t) {
    std::vector<double> a(s[rk]), b(t[rk]);
    for (size_t i = 0; i < a.size(); i++)
        a[i] = val(1, rk, (int)i);
    for (size_t i = 0; i < b.size(); i++)
        b[i] = val(2, rk, (int)i);
    auto va = getTVFromVector(a, comm), vb = getTVFromVector(b, comm);
    auto v = getTVFromTwoBlockTV(va, vb);
    const std::string n = "d";
    auto cmp = [&](const char *what, const std::vector<double> &ref) {
        MPI_Barrier(MPI_COMM_WORLD);
        if (rk == 0) {
            std::vector<double> g;
            std::string err;
            if (!mmArray(n + "_TV.mtx", g, err))
                vp::fail("dump of %s: %s", what, err.c_str());
            else {
                VP_CHECK(g.size() == ref.size(), "dump of %s has %zu values instead of %zu", what, g.size(), ref.size());
                for (size_t i = 0; i < std::min(g.size(), ref.size()); i++)
                    VP_CHECK(vp::near(g[i], ref[i], 1e-12 * (1 + std::fabs(ref[i]))), "dump of %s: entry %zu is %.17g instead of %.17g", what, i, g[i], ref[i]);
            }
            unlink((n + "_TV.mtx").c_str());
        }
        MPI_Barrier(MPI_COMM_WORLD);
    };
    std::vector<double> ra, rb;
    for (int r = 0; r < np_; r++) {
        for (int i = 0; i < s[r]; i++)
            ra.push_back(val(1, r, i));
        for (int i = 0; i < t[r]; i++)
            rb.push_back(val(2, r, i));
    }
    if (ra.size()) {
        dumpTV(va, n);
        cmp("a vector", ra);
    }
    std::vector<double> rab = ra;
    rab.insert(rab.end(), rb.begin(), rb.end());
    if (rab.size()) {
        dumpTV(v, n);
        cmp("a two-block vector", rab);
    }
    if (ra.size()) {
        // a tridiagonal matrix whose rows live as the first map says
        auto m = va->getMap();
        auto A = Teuchos::rcp(new TCMAT(m, 3));
        int N = (int)ra.size();
        for (size_t i = 0; i < m->getNodeNumElements(); i++) {
            int g = m->getGlobalElement((int)i);
            for (int c = std::max(0, g - 1); c <= std::min(N - 1, g + 1); c++) {
                double x = 1 + g * 10.0 + c / 3.0;
                A->insertGlobalValues(g, Teuchos::ArrayView<const int>(&c, 1), Teuchos::ArrayView<const double>(&x, 1));
            }
        }
        A->fillComplete();
        dumpTCMAT(A, n);
        MPI_Barrier(MPI_COMM_WORLD);
        if (rk == 0) {
            std::ifstream f(n + "_TCMAT.mtx");
            std::string l;
            std::getline(f, l);
            bool head = l.compare(0, 14, "%%MatrixMarket") == 0;
            while (f.peek() == '%')
                std::getline(f, l);
            long R, C, Z;
            f >> R >> C >> Z;
            std::map<std::pair<int, int>, double> e;
            int i, j;
            double x;
            while (f >> i >> j >> x)
                e[{i - 1, j - 1}] += x;
            VP_CHECK(head && R == N && C == N && Z == (long)e.size(), "dump of a matrix: %ld x %ld with %ld of %zu entries", R, C, Z, e.size());
            for (int g = 0; g < N; g++)
                for (int c = 0; c < N; c++) {
                    double want = std::abs(g - c) <= 1 ? 1 + g * 10.0 + c / 3.0 : 0, got = e.count({g, c}) ? e[{g, c}] : 0;
                    VP_CHECK(vp::near(got, want, 1e-9 * (1 + want)), "dump of a matrix: entry %d %d is %g instead of %g", g, c, got, want);
                }
            unlink((n + "_TCMAT.mtx").c_str());
        }
        MPI_Barrier(MPI_COMM_WORLD);
        // the operator as the iterative solvers see it
        auto x = Teuchos::rcp(new TMV(m, 2)), y = Teuchos::rcp(new TMV(m, 2));
        x->getVectorNonConst(0)->update(1.0, *va, 0.0);
        x->getVectorNonConst(1)->update(-2.0, *va, 0.0);
        typedef Belos::OperatorTraits<double, TMV, TOP> OT;
        for (int tr = 0; tr < 3; tr++) {
            y->putScalar(5);
            OT::Apply(*A, *x, *y, tr == 0 ? Belos::NOTRANS : tr == 1 ? Belos::TRANS : Belos::CONJTRANS);
            auto h = y->getLocalViewHost();
            for (size_t i = 0; i < m->getNodeNumElements(); i++) {
                int g = m->getGlobalElement((int)i);
                double w = 0;
                for (int c = std::max(0, g - 1); c <= std::min(N - 1, g + 1); c++)
                    w += (tr == 0 ? 1 + g * 10.0 + c / 3.0 : 1 + c * 10.0 + g / 3.0) * ra[c];
                VP_CHECK(vp::near(h(i, 0), w, 1e-9 * (1 + std::fabs(w) + std::fabs(ra[g]) * 100)) && vp::near(h(i, 1), -2 * w, 1e-8 * (1 + std::fabs(w) + std::fabs(ra[g]) * 100)),
                         "operator (mode %d): entry %d is %.12g %.12g instead of %.12g", tr, g, h(i, 0), h(i, 1), w);
            }
        }
        VP_CHECK(OT::HasApplyTranspose(*A) == A->hasTransposeApply(), "transpose ability");
    }
}

static void twoBlock(const std::vector<int> &s, const std::vector<int> &t) {
    auto m1 = getTMAPFromLocalSize(s[rk], comm), m2 = getTMAPFromLocalSize(t[rk], comm);
    auto m = getTMAPFromTwoBlockTMAP(m1, m2);
    std::vector<int> own;
    for (int i = 0; i < s[rk]; i++)
        own.push_back(off(s, rk) + i);
    for (int i = 0; i < t[rk]; i++)
        own.push_back(tot(s) + off(t, rk) + i);
    checkMap(m, own, tot(s) + tot(t), false);
    std::vector<double> a(s[rk]), b(t[rk]);
    for (size_t i = 0; i < a.size(); i++)
        a[i] = val(1, rk, (int)i);
    for (size_t i = 0; i < b.size(); i++)
        b[i] = val(2, rk, (int)i);
    auto va = getTVFromVector(a, comm), vb = getTVFromVector(b, comm);
    auto v = getTVFromTwoBlockTV(va, vb);
    checkMap(v->getMap(), own, tot(s) + tot(t), false);
    va->putScalar(-3); // a copy
    vb->putScalar(-4);
    auto g = local(v);
    auto want = a;
    want.insert(want.end(), b.begin(), b.end());
    VP_CHECK(g.size() == want.size(), "two-block vector has %zu local entries instead of %zu", g.size(), want.size());
    for (size_t i = 0; i < std::min(g.size(), want.size()); i++)
        VP_CHECK(g[i] == want[i], "two-block vector entry %zu of rank %d is %.17g instead of %.17g", i, rk, g[i], want[i]);
}

// every distribution of G entries over the ranks, in ascending and in descending order
static void owned(int G) {
    long n = 1;
    for (int i = 0; i < G; i++)
        n *= np_;
    for (long c = 0; c < n; c++)
        for (int rev = 0; rev < 2; rev++) {
            std::vector<int> who(G);
            long x = c;
            for (int i = 0; i < G; i++, x /= np_)
                who[i] = x % np_;
            if (!vp::begin(vp::fmt("ranks%d owned %d %s %s", np_, G, pat(who).c_str(), rev ? "down" : "up")))
                continue;
            std::vector<int> own;
            for (int i = 0; i < G; i++)
                if (who[i] == rk)
                    own.push_back(i);
            if (rev)
                std::reverse(own.begin(), own.end());
            auto m = getTMAPFromGlobalIndexOnLocal(own, G, comm);
            checkMap(m, own, G, false);
            std::vector<int> cnt(np_, 0);
            for (int w : who)
                cnt[w]++;
            if (*std::max_element(cnt.begin(), cnt.end()) < G)
                vp::nontrivial();
            vp::outcome(pat(cnt));
            if (G <= 4 || c % 7 == 0) { // values by global index in the dump, whoever owns them
                auto v = Teuchos::rcp(new TV(m, true));
                for (size_t i = 0; i < own.size(); i++)
                    v->replaceLocalValue((int)i, 0.5 + own[i] * own[i]);
                dumpTV(v, "o");
                MPI_Barrier(MPI_COMM_WORLD);
                if (rk == 0) {
                    std::vector<double> g;
                    std::string err;
                    if (!mmArray("o_TV.mtx", g, err) || (int)g.size() != G)
                        vp::fail("dump: %zu values %s", g.size(), err.c_str());
                    else
                        for (int i = 0; i < G; i++)
                            VP_CHECK(g[i] == 0.5 + i * i, "dump: entry %d is %g", i, g[i]);
                    unlink("o_TV.mtx");
                }
                MPI_Barrier(MPI_COMM_WORLD);
            }
        }
}

int main(int argc, char **argv) {
    mp::start(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
    MPI_Comm_size(MPI_COMM_WORLD, &np_);
    Logger::set_level(spdlog::level::off);
    bool th = vp::S().thorough;
    {
        comm = getMPIWORLDTCOMM();
        if (vp::begin(vp::fmt("ranks%d communicator", np_))) {
            VP_CHECK(comm->getSize() == np_ && comm->getRank() == rk, "rank %d of %d", comm->getRank(), comm->getSize());
            int one = 1, sum = 0;
            Teuchos::reduceAll(*comm, Teuchos::REDUCE_SUM, 1, &one, &sum);
            VP_CHECK(sum == np_, "the communicator joins %d ranks of %d", sum, np_);
        }
        std::vector<int> a1 = np_ <= 3 ? std::vector<int>{0, 1, 2, 5, 17} : np_ <= 4 ? std::vector<int>{0, 1, 2, 9} : std::vector<int>{0, 3};
        auto s1 = sizes(a1);
        if (np_ <= 4) // more than one chunk of the parallel copy
            for (int big : {1023, 1024, 1025, 2049, 5000})
                for (int r = 0; r < np_; r++) {
                    std::vector<int> s(np_, 1);
                    s[r] = big;
                    s1.push_back(s);
                    s[(r + 1) % np_] = np_ > 1 ? 0 : big;
                    s1.push_back(s);
                }
        for (auto &s : s1) {
            if (!vp::begin(vp::fmt("ranks%d sizes %s", np_, pat(s).c_str())))
                continue;
            if (tot(s) == 0)
                vp::count("empty");
            else
                vp::nontrivial();
            oneBlock(s);
            vp::outcome(vp::fmt("%d", tot(s)));
        }
        auto s2 = sizes(np_ <= 2 ? std::vector<int>{0, 1, 2, 3, 6} : np_ <= 3 ? std::vector<int>{0, 1, 2, 4} : np_ <= 4 ? (th ? std::vector<int>{0, 1, 3, 4} : std::vector<int>{0, 1, 3}) : std::vector<int>{0, 2});
        for (auto &s : s2)
            for (auto &t : s2) {
                if (np_ > 4 && (off(s, 2) + off(t, 3)) % 3)
                    continue;
                if (!vp::begin(vp::fmt("ranks%d blocks %s + %s", np_, pat(s).c_str(), pat(t).c_str())))
                    continue;
                if (tot(s) && tot(t))
                    vp::nontrivial();
                twoBlock(s, t);
                vp::outcome(vp::fmt("%d + %d", tot(s), tot(t)));
            }
        auto s3 = sizes(np_ <= 2 ? std::vector<int>{0, 1, 3, 4} : std::vector<int>{0, 2});
        for (auto &s : s3)
            for (auto &t : s3) {
                if (np_ > 3 && (off(s, 2) + off(t, 3)) % 4)
                    continue;
                if (!vp::begin(vp::fmt("ranks%d dump %s + %s", np_, pat(s).c_str(), pat(t).c_str())))
                    continue;
                if (tot(s) && tot(t))
                    vp::nontrivial();
                dumps(s, t);
            }
        for (int G = 1; G <= (np_ <= 2 ? 8 : np_ == 3 ? 6 : np_ == 4 ? (th ? 6 : 5) : 4); G++)
            owned(G);
        comm = Teuchos::null;
    }
    vp::done();
    mp::stop();
    return 0;
}
