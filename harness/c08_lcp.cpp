// C08: the linear complementarity solvers.  Every small symmetric positive definite matrix of a lattice x right hand sides x initial
// guesses x solver x rank layout, against the active-set solution.
#include "Collision/CPSolver.hpp"
#include "dense.hpp"
using namespace dense;

struct Problem {
    Mat A;
    Vec b;
    double lmin, lmax;
};
static const char *NAME[5] = {"mmNewton", "APGD", "BBPGD", "APGD+mmNewton", "BBPGD+mmNewton"};

static double phi(const Problem &P, const Vec &x) {
    Vec y = P.A * x + P.b;
    return x.cwiseMin(y).norm();
}

// which: 0 Newton, 1 APGD, 2 BBPGD, 3/4 gradient solver followed by Newton, as test_LCP does
static void solve(const Problem &P, const Layout &L, const Vec &x0, int which, double TOL, int iteMax, bool must, const Vec *sol) {
    Op op(L, P.A);
    Teuchos::RCP<const TOP> A = Teuchos::rcp(static_cast<const TOP *>(&op), false);
    Teuchos::RCP<const TV> b = L.vec(P.b).getConst();
    CPSolver S(A, b);
    auto x = L.vec(x0);
    IteHistory h;
    int rc = 0;
    if (which == 1 || which == 3)
        rc = S.LCP_APGD(x, which == 3 ? 100 * TOL : TOL, iteMax, h);
    if (which == 2 || which == 4)
        rc = S.LCP_BBPGD(x, which == 4 ? 100 * TOL : TOL, iteMax, h);
    bool grad = which == 1 || which == 2;
    if (!grad)
        rc = S.LCP_mmNewton(x, TOL, iteMax, h);
    Vec r = L.get(x.getConst());
    const char *nm = NAME[which];
    VP_CHECK(!h.empty(), "%s: no history", nm);
    if (h.empty())
        return;
    if (grad)
        VP_CHECK(h.back()[0] <= iteMax, "%s made %g iterations, limit %d", nm, h.back()[0], iteMax);
    for (int i = 0; i < r.size(); i++)
        VP_CHECK(std::isfinite(r[i]) && r[i] >= 0, "%s: x[%d]=%.17g", nm, i, r[i]);
    double res = phi(P, r), best = 1e300;
    for (auto &e : h)
        if (e[0] > 0)
            best = std::min(best, e[4]);
    double round = 1e-12 * (P.lmax * r.norm() + P.b.norm());
    if (which == 2)
        VP_CHECK(std::fabs(res - h.back()[4]) <= round + 1e-9 * res, "%s: residual of the result %g, last in the history %g (limit %d)", nm, res,
                 h.back()[4], iteMax);
    if (which == 1 && h.size() > 1)
        VP_CHECK(std::fabs(res - best) <= round + 1e-9 * res, "%s: residual of the result %g, best in the history %g (limit %d)", nm, res, best,
                 iteMax);
    if (must) {
        double F = 0.5 * P.lmax * r.squaredNorm() + P.b.norm() * r.norm(), lim = which == 1 ? 10 * std::sqrt(2.2e-16 * F * P.lmax) : 0;
        double t = grad ? std::max(TOL, lim) : std::max(TOL, 1.5e-7); // the Newton solver stops at a merit of 1e-14
        if (grad)
            VP_CHECK(rc == 0, "%s reports %d", nm, rc);
        if (rc == 0 || grad) {
            VP_CHECK(res <= t * 1.001 + round, "%s: reports %d, residual %g, %zu records, %g iterations", nm, rc, res, h.size(), h.back()[0]);
            if (sol)
                VP_CHECK((r - *sol).norm() <= 4 * t / P.lmin * (1 + P.lmax) + 1e-9, "%s: distance from the solution %g", nm, (r - *sol).norm());
        } else
            vp::count("newton_gave_up");
    }
    vp::count("iterations", h.size());
}

static double eigs(const Mat &A, double *mx) {
    Eigen::SelfAdjointEigenSolver<Mat> e(A, Eigen::EigenvaluesOnly);
    *mx = e.eigenvalues().maxCoeff();
    return e.eigenvalues().minCoeff();
}

static void guesses(const Problem &P, const Vec &sol, const Layout &L, long c) {
    const int n = P.b.size();
    for (int g = 0; g < 5; g++) {
        Vec x0(n);
        for (int i = 0; i < n; i++)
            x0[i] = g == 0 ? 0 : (g == 1 ? 1 : (g == 2 ? std::max(0.0, sol[i]) : (g == 3 ? 50 * (i % 2) : std::max(0.0, -P.b[i] / P.A(i, i)))));
        double tol = c % 4 == 0 ? 1e-8 : (c % 4 == 1 ? 1e-5 : (c % 4 == 2 ? 1e-6 : 1e-10));
        for (int w = 0; w < 5; w++) {
            solve(P, L, x0, w, tol, 20000, true, &sol);
            if ((w == 1 || w == 2) && g != 1)
                for (int it : {0, 1, 2, 5})
                    if (w == 2 || it)
                        solve(P, L, x0, w, tol, it, false, nullptr);
        }
    }
}

static void small(int n, long stride, const std::vector<int> &layout, const std::string &tag) {
    const std::vector<double> diag = n == 1 ? std::vector<double>{0.01, 1, 7} : (n == 2 ? std::vector<double>{0.5, 1, 4} : std::vector<double>{1, 2, 5});
    const std::vector<double> off = n == 3 ? std::vector<double>{-1, 0, 0.9} : std::vector<double>{-0.9, -0.5, 0, 0.5, 1};
    const double bs[5] = {-1.5, -0.01, 0, 1, 30};
    Layout L(layout);
    int nd = diag.size(), no = off.size(), np = n * (n - 1) / 2;
    long nA = 1, nB = 1;
    for (int i = 0; i < n; i++)
        nA *= nd, nB *= 5;
    for (int i = 0; i < np; i++)
        nA *= no;
    long c = 0;
    for (long ia = 0; ia < nA; ia++) {
        Problem P;
        P.A = Mat::Zero(n, n);
        long t = ia;
        for (int i = 0; i < n; i++, t /= nd)
            P.A(i, i) = diag[t % nd];
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++, t /= no)
                P.A(i, j) = P.A(j, i) = off[t % no];
        P.lmin = eigs(P.A, &P.lmax);
        if (P.lmin < 0.009)
            continue;
        for (long ib = 0; ib < nB; ib++) {
            if ((c++) % stride)
                continue;
            if (!vp::begin(tag + vp::fmt(" n%d A%ld b%ld", n, ia, ib)))
                continue;
            P.b = Vec::Zero(n);
            long tb = ib;
            for (int i = 0; i < n; i++, tb /= 5)
                P.b[i] = bs[tb % 5] * (1 + 0.125 * i);
            Vec sol;
            if (!activeSet(P.A, P.b, Vec::Zero(n), Vec::Constant(n, 1e300), sol)) {
                vp::fail("check error: no active set solves the problem");
                continue;
            }
            vp::nontrivial();
            uint64_t hh = 5;
            for (int i = 0; i < n; i++)
                hh = vp::mix(hh, (uint64_t)vp::rnd(sol[i], 1e-6));
            vp::outcome(hh);
            guesses(P, sol, L, c);
        }
    }
}

static void large() {
    const int np = mp::np;
    for (int n : {8, 20, 60})
        for (int cond = 0; cond < 3; cond++)
            for (int seed = 0; seed < 4; seed++)
                for (int lay = 0; lay < 2; lay++) {
                    if (!vp::begin(vp::fmt("large n%d cond%d seed%d lay%d", n, cond, seed, lay)))
                        continue;
                    uint64_t st = 88172645463325252ull + seed * 7919;
                    auto rnd = [&] {
                        st ^= st << 13;
                        st ^= st >> 7;
                        st ^= st << 17;
                        return (st >> 11) * (1.0 / 9007199254740992.0) * 2 - 1;
                    };
                    Problem P;
                    Mat B(n, n), D = Mat::Zero(n, n);
                    for (int i = 0; i < n; i++)
                        for (int j = 0; j < n; j++)
                            B(i, j) = rnd();
                    for (int i = 0; i < n; i++)
                        D(i, i) = pow(10, 1.0 * cond * rnd());
                    P.A = B.transpose() * D * B / n + 0.1 * Mat::Identity(n, n);
                    P.A = (0.5 * (P.A + P.A.transpose())).eval();
                    P.lmin = eigs(P.A, &P.lmax);
                    P.b = Vec::Zero(n);
                    for (int i = 0; i < n; i++)
                        P.b[i] = rnd();
                    std::vector<int> l(np, n / np);
                    l[0] += n - np * (n / np);
                    if (lay && np > 1) {
                        l.assign(np, 0);
                        l[np - 1] = n - 1;
                        l[0] += 1;
                    }
                    Layout L(l);
                    for (int w = 0; w < 5; w++) {
                        solve(P, L, Vec::Constant(n, seed % 2), w, 1e-6, 200000, true, nullptr);
                        if (w == 1 || w == 2)
                            for (int it : {1, 2, 7, 8})
                                solve(P, L, Vec::Zero(n), w, 1e-6, it, false, nullptr);
                    }
                    vp::nontrivial();
                    vp::outcome(vp::S().cur);
                }
}

int main(int c, char **v) {
    mp::start(c, v);
    const bool th = vp::S().thorough;
    const int np = mp::np;
    if (np == 1) {
        small(1, 1, {1}, "");
        small(2, 1, {2}, "");
        small(3, th ? 7 : 97, {3}, "");
    } else
        for (int n = 1; n <= 3; n++) {
            std::vector<std::vector<int>> sp;
            splits(n, np, sp);
            for (auto &s : sp) {
                std::string t = "layout";
                for (int k : s)
                    t += vp::fmt(".%d", k);
                long st = n == 1 ? 3 : (n == 2 ? 101 : 6007);
                small(n, th ? st / 3 : st, s, t);
            }
        }
    large();
    if (vp::begin("empty")) {
        Problem P;
        P.A = Mat::Zero(0, 0);
        P.b = Vec::Zero(0);
        P.lmin = P.lmax = 1;
        Layout L(std::vector<int>(np, 0));
        for (int w = 1; w < 3; w++)
            solve(P, L, Vec::Zero(0), w, 1e-6, 100, true, nullptr);
    }
    mp::stop();
}
