// C06: the bound constrained solvers return the minimiser.  Every small symmetric positive definite matrix of a lattice x right hand
// sides x bound patterns x initial guesses x solver x rank layout, against the active-set solution.
#include "Constraint/BCQPSolver.hpp"
#include "dense.hpp"
#include "Util/Logger.hpp"
using namespace dense;
static const double BIG = std::numeric_limits<double>::max() / 10;

struct Problem {
    Mat A;
    Vec b, lb, ub;
    bool useLB = true, useUB = true;
    double lmin, lmax;
};

static double residual(const Problem &P, const Vec &x) { // projected gradient, norm 2
    Vec g = P.A * x + P.b;
    double s = 0;
    for (int i = 0; i < x.size(); i++) {
        double sc = 1e-13 * (1 + std::fabs(x[i]));
        bool lo = x[i] <= P.lb[i] + sc, hi = x[i] >= P.ub[i] - sc;
        double q = g[i];
        if (lo)
            q = std::min(q, 0.0);
        if (hi)
            q = std::max(q, 0.0);
        s += q * q;
    }
    return std::sqrt(s);
}
static const double TOL = 1e-6;

// one solve; returns iterations
static void solve(const Problem &P, const Layout &L, const Vec &x0, int which, int iteMax, bool must, const Vec *sol) {
    Op op(L, P.A);
    Teuchos::RCP<const TOP> A = Teuchos::rcp(static_cast<const TOP *>(&op), false);
    Teuchos::RCP<const TV> b = L.vec(P.b).getConst();
    BCQPSolver S(A, b);
    if (P.useLB)
        S.setLowerBound(L.vec(P.lb));
    if (P.useUB)
        S.setUpperBound(L.vec(P.ub));
    S.prepareSolver();
    auto x = L.vec(x0);
    IteHistory h;
    int rc = which ? S.solveAPGD(x, TOL, iteMax, h) : S.solveBBPGD(x, TOL, iteMax, h);
    Vec r = L.get(x.getConst());
    const char *nm = which ? "APGD" : "BBPGD";
    VP_CHECK(!h.empty() && h.back()[0] <= iteMax, "%s made %g iterations, limit %d", nm, h.empty() ? -1 : h.back()[0], iteMax);
    for (int i = 0; i < r.size(); i++)
        VP_CHECK(std::isfinite(r[i]) && r[i] >= P.lb[i] && r[i] <= P.ub[i], "%s: x[%d]=%.17g is outside [%g,%g] (limit %d)", nm, i, r[i], P.lb[i],
                 P.ub[i], iteMax);
    if (must) {
        double res = residual(P, r);
        // the accelerated solver compares objective values: below this residual they cannot be told apart in double precision
        double F = 0.5 * P.lmax * r.squaredNorm() + P.b.norm() * r.norm(), lim = which ? 10 * std::sqrt(2.2e-16 * F * P.lmax) : 0;
        bool attainable = lim < TOL;
        VP_CHECK(rc == 0 || !attainable, "%s reports failure %d, residual %g after %zu records", nm, rc, res, h.size());
        VP_CHECK(res <= std::max(TOL, lim) * 1.001 + 1e-12 * P.lmax, "%s: projected gradient residual %g after %g iterations", nm, res, h.back()[0]);
        if (sol)
            VP_CHECK((r - *sol).norm() <= 4 * std::max(TOL, lim) / P.lmin * (1 + P.lmax) + 1e-9, "%s: distance from the minimiser %g", nm, (r - *sol).norm());
    }
    vp::count("iterations", h.size());
}

static double eigs(const Mat &A, double *mx) {
    Eigen::SelfAdjointEigenSolver<Mat> e(A, Eigen::EigenvaluesOnly);
    *mx = e.eigenvalues().maxCoeff();
    return e.eigenvalues().minCoeff();
}

static const double BL[8][2] = {{-BIG, BIG}, {0, BIG}, {-BIG, 0}, {-0.25, 0.5}, {0.5, 1}, {-1e8, BIG}, {-1, -0.125}, {300, 1000}};

// all cases of one problem size
static void small(int n, long stride, const std::vector<int> &layout, const std::string &tag) {
    const std::vector<double> diag = n == 1 ? std::vector<double>{0.01, 1, 7} : (n == 2 ? std::vector<double>{0.5, 1, 4} : std::vector<double>{1, 2, 5});
    const std::vector<double> off = n == 3 ? std::vector<double>{-1, 0, 0.9} : std::vector<double>{-0.9, -0.5, 0, 0.5, 1};
    const double bs[3] = {-1.5, 0, 1};
    Layout L(layout);
    int nd = diag.size(), no = off.size(), np = n * (n - 1) / 2;
    long nA = 1, nB = 1, nL = 1;
    for (int i = 0; i < n; i++)
        nA *= nd, nB *= 3, nL *= 8;
    for (int i = 0; i < np; i++)
        nA *= no;
    long c = 0;
    for (long ia = 0; ia < nA; ia++) {
        Problem P;
        P.A = Mat::Zero(n, n);
        long t = ia;
        for (int i = 0; i < n; i++, t /= nd)
            P.A(i, i) = diag[t % nd];
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++, t /= no)
                P.A(i, j) = P.A(j, i) = off[t % no];
        P.lmin = eigs(P.A, &P.lmax);
        if (P.lmin < 0.009)
            continue;
        for (long ib = 0; ib < nB; ib++)
            for (long il = 0; il < nL; il++) {
                if ((c++) % stride)
                    continue;
                std::string key = tag + vp::fmt(" n%d A%ld b%ld l%ld", n, ia, ib, il);
                if (!vp::begin(key))
                    continue;
                P.b = P.lb = P.ub = Vec::Zero(n);
                long tb = ib, tl = il;
                bool anyL = false, anyU = false;
                for (int i = 0; i < n; i++, tb /= 3, tl /= 8) {
                    P.b[i] = bs[tb % 3] * (1 + 0.125 * i);
                    P.lb[i] = BL[tl % 8][0];
                    P.ub[i] = BL[tl % 8][1];
                    anyL |= P.lb[i] > -BIG;
                    anyU |= P.ub[i] < BIG;
                }
                P.useLB = anyL || (c & 1); // without bounds the defaults are used
                P.useUB = anyU || (c & 2);
                Vec sol;
                if (!activeSet(P.A, P.b, P.lb, P.ub, sol)) {
                    vp::fail("check error: no active set solves the problem");
                    continue;
                }
                bool act = false;
                for (int i = 0; i < n; i++)
                    act |= sol[i] <= P.lb[i] + 1e-9 || sol[i] >= P.ub[i] - 1e-9;
                vp::nontrivial();
                vp::count(act ? "bounds_active" : "interior");
                uint64_t hh = 5;
                for (int i = 0; i < n; i++)
                    hh = vp::mix(hh, (uint64_t)vp::rnd(sol[i], 1e-6));
                vp::outcome(hh);
                // feasible initial guesses
                for (int g = 0; g < 4; g++) {
                    Vec x0(n);
                    for (int i = 0; i < n; i++) {
                        double v = g == 0 ? 0 : (g == 1 ? 1 : (g == 2 ? sol[i] : 50 * (i % 2 ? -1 : 1)));
                        x0[i] = std::min(P.ub[i], std::max(P.lb[i], v));
                    }
                    for (int w = 0; w < 2; w++) {
                        solve(P, L, x0, w, 20000, true, &sol);
                        if (g == 3 || g == 0)
                            solve(P, L, x0, w, 1 + (int)(il % 3), false, nullptr);
                    }
                }
            }
    }
}

// the same problems in other units: A x scale, so that the solution is x / scale
static void scaled() {
    const int np = mp::np;
    const double diag[] = {1, 4}, off[] = {-0.5, 0, 0.9}, bs[] = {-1.5, 0.25, 1};
    for (double scale : {1e-9, 1e-4, 1e3, 1e6, 1e9, 1e11})
        for (int n = 1; n <= 3; n++)
            for (int ia = 0; ia < 6; ia++)
                for (int ib = 0; ib < 9; ib++)
                    for (int il = 0; il < 6; il++) {
                        if (!vp::begin(vp::fmt("scale%g n%d A%d b%d l%d", scale, n, ia, ib, il)))
                            continue;
                        Problem P;
                        P.A = Mat::Zero(n, n);
                        P.b = P.lb = P.ub = Vec::Zero(n);
                        for (int i = 0; i < n; i++) {
                            P.A(i, i) = scale * diag[(ia + i) % 2];
                            for (int j = 0; j < i; j++)
                                P.A(i, j) = P.A(j, i) = scale * off[(ia / 2 + j) % 3] / (n == 3 ? 2 : 1);
                            P.b[i] = bs[(ib + i * (1 + ib / 3)) % 3];
                            int k = il == 0 ? 0 : (il == 5 ? i % 5 : il); // none, below, above, both sides
                            P.lb[i] = k == 1 ? 0 : (k == 3 ? -0.25 / scale : (k == 4 ? 0.5 / scale : -BIG));
                            P.ub[i] = k == 2 ? 0 : (k == 3 ? 0.5 / scale : (k == 4 ? 1 / scale : BIG));
                        }
                        P.useLB = il != 0 || ib % 2;
                        P.useUB = il != 0 || ib % 3 == 1;
                        P.lmin = eigs(P.A, &P.lmax);
                        Vec sol;
                        auto unit = [&](Vec v) {
                            for (int i = 0; i < n; i++)
                                v[i] = std::fabs(v[i]) == BIG ? v[i] : v[i] * scale;
                            return v;
                        };
                        if (!activeSet(P.A / scale, P.b, unit(P.lb), unit(P.ub), sol)) {
                            vp::fail("check error: no active set solves the problem");
                            continue;
                        }
                        sol = (sol / scale).cwiseMax(P.lb).cwiseMin(P.ub);
                        std::vector<int> l(np, 0);
                        for (int i = 0; i < n; i++)
                            l[(i + ib) % np]++;
                        Layout L(l);
                        for (int g = 0; g < 3; g++) {
                            Vec x0 = g == 1 ? sol : Vec(Vec::Constant(n, g ? 2 / scale : 0.0).cwiseMax(P.lb).cwiseMin(P.ub));
                            for (int w = 0; w < 2; w++)
                                solve(P, L, x0, w, 20000, true, nullptr);
                        }
                        vp::nontrivial();
                        vp::count("scaled");
                        vp::outcome(vp::S().cur);
                    }
}

// larger, badly scaled problems
static void large() {
    const int np = mp::np;
    for (int n : {8, 20, 60})
        for (int cond = 0; cond < 3; cond++)
            for (int seed = 0; seed < 6; seed++)
                for (int lay = 0; lay < 2; lay++) {
                    if (!vp::begin(vp::fmt("large n%d cond%d seed%d lay%d", n, cond, seed, lay)))
                        continue;
                    uint64_t st = 88172645463325252ull + seed * 7919;
                    auto rnd = [&] {
                        st ^= st << 13;
                        st ^= st >> 7;
                        st ^= st << 17;
                        return (st >> 11) * (1.0 / 9007199254740992.0) * 2 - 1;
                    };
                    Problem P;
                    Mat B(n, n);
                    for (int i = 0; i < n; i++)
                        for (int j = 0; j < n; j++)
                            B(i, j) = rnd();
                    Mat D = Mat::Zero(n, n);
                    for (int i = 0; i < n; i++)
                        D(i, i) = pow(10, (cond == 0 ? 0 : 1.0 * cond) * rnd());
                    P.A = B.transpose() * D * B / n + 0.1 * Mat::Identity(n, n);
                    P.A = (0.5 * (P.A + P.A.transpose())).eval();
                    P.lmin = eigs(P.A, &P.lmax);
                    P.b = P.lb = P.ub = Vec::Zero(n);
                    for (int i = 0; i < n; i++) {
                        P.b[i] = rnd();
                        double l = rnd(), u = rnd();
                        P.lb[i] = std::min(l, u) - 0.01;
                        P.ub[i] = std::max(l, u);
                        if (seed % 3 == 1)
                            P.lb[i] = 0, P.ub[i] = BIG;
                        if (seed % 3 == 2 && i % 2)
                            P.lb[i] = -BIG, P.ub[i] = BIG;
                    }
                    std::vector<int> l(np, n / np);
                    l[0] += n - np * (n / np);
                    if (lay && np > 1) {
                        l.assign(np, 0);
                        l[np - 1] = n - 1;
                        l[0] += 1;
                    }
                    Layout L(l);
                    Vec x0 = P.lb.cwiseMax(Vec::Zero(n)).cwiseMin(P.ub);
                    for (int w = 0; w < 2; w++) {
                        solve(P, L, x0, w, 200000, true, nullptr);
                        for (int it : {1, 2, 7})
                            solve(P, L, x0, w, it, false, nullptr);
                    }
                    vp::nontrivial();
                    vp::outcome(vp::S().cur);
                }
}

int main(int c, char **v) {
    mp::start(c, v);
    Logger::setup_mpi_spdlog(spdlog::level::off);
    const bool th = vp::S().thorough;
    const int np = mp::np;
    if (np == 1) {
        small(1, 1, {1}, "");
        small(2, th ? 1 : 7, {2}, "");
        small(3, th ? 31 : 701, {3}, "");
    } else {
        for (int n = 1; n <= 3; n++) {
            std::vector<std::vector<int>> sp;
            splits(n, np, sp);
            for (auto &s : sp) {
                std::string t = "layout";
                for (int k : s)
                    t += vp::fmt(".%d", k);
                long st = n == 1 ? 5 : (n == 2 ? 307 : 20011);
                small(n, th ? st / 5 : st, s, t);
            }
        }
    }
    scaled();
    large();
    // empty problem: no constraints at all
    if (vp::begin("empty")) {
        Problem P;
        P.A = Mat::Zero(0, 0);
        P.b = P.lb = P.ub = Vec::Zero(0);
        P.lmin = P.lmax = 1;
        Layout L(std::vector<int>(np, 0));
        for (int w = 0; w < 2; w++)
            solve(P, L, Vec::Zero(0), w, 100, true, nullptr);
    }
    mp::stop();
}
