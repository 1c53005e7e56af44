// A replicated dense matrix as a Tpetra operator, and helpers to build and read distributed vectors of any layout.
#ifndef VP_DENSE_HPP
#define VP_DENSE_HPP
#include "Trilinos/TpetraUtil.hpp"
#include "Util/EigenDef.hpp"
#include "mp.hpp"

namespace dense {
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

struct Layout {
    std::vector<int> cnt, dis; // local sizes of all ranks, displacements
    Teuchos::RCP<const TMAP> map;
    Layout(const std::vector<int> &c) : cnt(c), dis(c.size() + 1, 0) {
        for (size_t i = 0; i < c.size(); i++)
            dis[i + 1] = dis[i] + c[i];
        auto comm = getMPIWORLDTCOMM();
        int n = cnt[mp::rank];
        map = Teuchos::rcp(new TMAP(dis.back(), n, 0, comm));
    }
    int n() const { return dis.back(); }
    Teuchos::RCP<TV> vec(const Vec &v) const {
        Teuchos::RCP<TV> r = Teuchos::rcp(new TV(map, true));
        auto p = r->getLocalView<Kokkos::HostSpace>();
        r->modify<Kokkos::HostSpace>();
        for (int i = 0; i < cnt[mp::rank]; i++)
            p(i, 0) = v[dis[mp::rank] + i];
        return r;
    }
    Vec get(const Teuchos::RCP<const TV> &r) const {
        Vec v(n());
        auto p = r->getLocalView<Kokkos::HostSpace>();
        std::vector<double> loc(cnt[mp::rank]);
        for (size_t i = 0; i < loc.size(); i++)
            loc[i] = p(i, 0);
        MPI_Allgatherv(loc.data(), (int)loc.size(), MPI_DOUBLE, v.data(), cnt.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
        return v;
    }
};

class Op : public TOP {
  public:
    const Layout &L;
    const Mat &A;
    mutable long applies = 0;
    Op(const Layout &l, const Mat &a) : L(l), A(a) {}
    void apply(const TMV &X, TMV &Y, Teuchos::ETransp mode = Teuchos::NO_TRANS, double alpha = 1, double beta = 0) const override {
        for (size_t c = 0; c < X.getNumVectors(); c++) {
            Vec x = L.get(X.getVector(c));
            auto yv = Y.getVectorNonConst(c);
            auto p = yv->getLocalView<Kokkos::HostSpace>();
            yv->modify<Kokkos::HostSpace>();
            for (int i = 0; i < L.cnt[mp::rank]; i++)
                p(i, 0) = alpha * A.row(L.dis[mp::rank] + i).dot(x) + (beta == 0 ? 0 : beta * p(i, 0));
        }
        applies++;
    }
    Teuchos::RCP<const TMAP> getDomainMap() const override { return L.map; }
    Teuchos::RCP<const TMAP> getRangeMap() const override { return L.map; }
    bool hasTransposeApply() const override { return false; }
};

// unique minimiser of 1/2 x'Ax + b'x on lb <= x <= ub (A symmetric positive definite): all active sets for small n
inline bool activeSet(const Mat &A, const Vec &b, const Vec &lb, const Vec &ub, Vec &x) {
    int n = (int)b.size();
    long tot = 1;
    for (int i = 0; i < n; i++)
        tot *= 3;
    for (long c = 0; c < tot; c++) {
        std::vector<int> fr;
        x = Vec::Zero(n);
        bool ok = true;
        std::vector<int> st(n);
        long cc = c;
        for (int i = 0; i < n; i++, cc /= 3) {
            st[i] = cc % 3;
            if (st[i] == 0)
                fr.push_back(i);
            else {
                double v = st[i] == 1 ? lb[i] : ub[i];
                if (std::fabs(v) > 1e200) {
                    ok = false;
                    break;
                }
                x[i] = v;
            }
        }
        if (!ok)
            continue;
        if (!fr.empty()) {
            Mat S(fr.size(), fr.size());
            Vec r(fr.size());
            Vec g = A * x + b;
            for (size_t i = 0; i < fr.size(); i++) {
                r[i] = -g[fr[i]];
                for (size_t j = 0; j < fr.size(); j++)
                    S(i, j) = A(fr[i], fr[j]);
            }
            Vec y = S.ldlt().solve(r);
            for (size_t i = 0; i < fr.size(); i++)
                x[fr[i]] = y[i];
        }
        Vec g = A * x + b;
        double sc = 1e-9 * (1 + x.lpNorm<Eigen::Infinity>() + b.lpNorm<Eigen::Infinity>());
        for (int i = 0; i < n && ok; i++) {
            if (x[i] < lb[i] - sc || x[i] > ub[i] + sc)
                ok = false;
            if (st[i] == 1 && g[i] < -sc)
                ok = false;
            if (st[i] == 2 && g[i] > sc)
                ok = false;
        }
        if (ok)
            return true;
    }
    return false;
}

// all ways to write n = sum of np local sizes
inline void splits(int n, int np, std::vector<std::vector<int>> &out, std::vector<int> cur = {}) {
    if ((int)cur.size() == np - 1) {
        cur.push_back(n);
        out.push_back(cur);
        return;
    }
    for (int k = 0; k <= n; k++) {
        auto c = cur;
        c.push_back(k);
        splits(n - k, np, out, c);
    }
}
} // namespace dense
#endif
