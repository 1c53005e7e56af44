// C07: the solved constraint problem.  Every small graph of contacts, wall contacts and springs on up to 3 bodies x gaps x velocities x
// initial guesses x mobilities x solvers x layouts: complementarity, spring law, forces, velocities, momentum.
#include "blocks.hpp"
#include "Util/Logger.hpp"
using namespace blocks;
static const double TOL = 1e-5;

struct Case {
    std::vector<Item> items;
    int nq = 1;
    std::vector<int> parts;
    bool coupled = false;
    double dt = 0.01;
    int vel = 0, solver = 0, maxIte = 100000;
};
static ConstraintCollector *coll;
static ConstraintSolver *reused;

static void check(const Case &K) {
    ConstraintCollector &C = *coll;
    fill(C, K.items, K.nq);
    auto ord = ordered(K.items);
    auto rl = rowLayout(K.items);
    Layout LM(six(K.parts)), LG(rl);
    int nP = LM.n() / 6;
    const int nG = LG.n();
    Mat DT = denseDT(ord, nP), M = mobility(nP, K.coupled);
    Op mob(LM, M);
    Teuchos::RCP<TOP> mobR = Teuchos::rcp(static_cast<TOP *>(&mob), false);
    Vec vnc(6 * nP);
    for (int k = 0; k < 6 * nP; k++)
        vnc[k] = K.vel == 0 ? 0 : (K.vel == 1 ? gen(k + 40) : (K.vel == 2 ? 8 * gen(k + 90) : -2 * gen(k + 40)));
    auto vncR = LM.vec(vnc);
    ConstraintSolver &S = *reused;
    S.setup(C, mobR, vncR, K.dt);
    S.setControlParams(TOL, K.maxIte, K.solver);
    S.solveConstraints();
    S.writebackGamma();
    // magnitudes from the blocks
    std::vector<double> loc;
    for (auto &q : *C.constraintPoolPtr)
        for (auto &b : q)
            loc.push_back(b.gamma);
    int bad = (int)loc.size() != rl[mp::rank];
    VP_CHECK(!bad, "%zu blocks, expected %d", loc.size(), rl[mp::rank]);
    if (mp::any(bad))
        return;
    auto all = mp::gather(loc);
    Vec g = Eigen::Map<Vec>(all.data(), nG), gu = g, gb = g;
    for (int r = 0; r < nG; r++)
        (ord[r].b.bilateral ? gu : gb)[r] = 0;
    Vec fu = LM.get(S.getForceUni()), fb = LM.get(S.getForceBi()), vu = LM.get(S.getVelocityUni()), vb = LM.get(S.getVelocityBi());
    double gs = 1 + g.norm();
    Vec eu = DT.transpose() * gu, eb = DT.transpose() * gb;
    VP_CHECK((fu - eu).norm() <= 1e-9 * gs, "unilateral force differs from the sum over the blocks by %g (|gamma|=%g, %s, limit %d)", (fu - eu).norm(),
             g.norm(), K.solver ? "APGD" : "BBPGD", K.maxIte);
    VP_CHECK((fb - eb).norm() <= 1e-9 * gs, "bilateral force differs from the sum over the blocks by %g (|gamma|=%g)", (fb - eb).norm(), g.norm());
    VP_CHECK((vu - M * eu).norm() <= 1e-9 * gs * M.norm(), "unilateral velocity differs from mobility times force by %g (|gamma|=%g)", (vu - M * eu).norm(),
             g.norm());
    VP_CHECK((vb - M * eb).norm() <= 1e-9 * gs * M.norm(), "bilateral velocity differs from mobility times force by %g (|gamma|=%g)", (vb - M * eb).norm(),
             g.norm());
    for (int r = 0; r < nG; r++)
        if (!ord[r].b.bilateral)
            VP_CHECK(g[r] >= 0, "contact %d has force %g", r, g[r]);
    // momentum
    bool oneSided = false;
    for (auto &o : ord)
        oneSided |= o.b.oneSide;
    if (!oneSided)
        for (const Vec *f : {&fu, &fb}) {
            V3 F = V3::Zero(), T = V3::Zero();
            for (int i = 0; i < nP; i++) {
                V3 fi = f->segment<3>(6 * i), ti = f->segment<3>(6 * i + 3);
                F += fi, T += ti + center(i).cross(fi);
            }
            VP_CHECK(F.norm() <= 1e-9 * gs && T.norm() <= 1e-8 * gs, "two-sided constraints exert net force %g and torque %g (|gamma|=%g)", F.norm(),
                     T.norm(), g.norm());
        }
    if (K.maxIte < 1000)
        return;
    // predicted gap at the end of the step
    Vec v = vnc + vu + vb, gap = DT * v * K.dt;
    double rowMax = DT.norm() * DT.norm() * M.norm();
    double F = 0.5 * g.norm() * g.norm() * rowMax + g.norm() * (DT * vnc).norm(), tol = TOL;
    if (K.solver)
        tol = std::max(tol, 10 * std::sqrt(2.2e-16 * F * rowMax));
    tol = tol * 1.01 + 1e-12 * rowMax * gs;
    for (int r = 0; r < nG; r++) {
        auto &b = ord[r].b;
        double end = (b.delta0 + gap[r]) / K.dt;
        if (b.bilateral) {
            double dev = end + (b.kappa > 0 ? g[r] / b.kappa / K.dt : 0);
            VP_CHECK(std::fabs(dev) <= tol, "spring %d: force %g, deviation at the end of the step %g, stiffness %g: residual %g", r, g[r], end * K.dt,
                     b.kappa, dev);
        } else {
            VP_CHECK(end >= -tol, "contact %d: gap at the end of the step %g (rate %g), force %g", r, end * K.dt, end, g[r]);
            if (g[r] > 1e-12)
                VP_CHECK(std::fabs(end) <= tol, "contact %d: force %g although the gap at the end of the step is %g", r, g[r], end * K.dt);
        }
        vp::count(b.bilateral ? "springs" : (g[r] > 1e-12 ? "active_contacts" : "open_contacts"));
    }
    uint64_t h = nG;
    for (int r = 0; r < nG; r++)
        h = vp::mix(h, (uint64_t)vp::rnd(g[r], 1e-3));
    vp::outcome(h);
}

int main(int c, char **v) {
    mp::start(c, v);
    blocks::kappaScale = {1, 0.03, 4, 0.3};
    Logger::setup_mpi_spdlog(spdlog::level::off);
    const bool th = vp::S().thorough;
    const int np = mp::np;
    {
        ConstraintCollector cc;
        ConstraintSolver ss;
        coll = &cc;
        reused = &ss;
        for (int nP : {1, 2, 3}) {
            std::vector<std::array<int, 3>> types;
            for (int i = 0; i < nP; i++)
                types.push_back({i, i, 1}), types.push_back({i, i, 4});
            for (int i = 0; i < nP; i++)
                for (int j = 0; j < nP; j++)
                    if (i != j) {
                        types.push_back({i, j, 0});
                        if (i < j)
                            types.push_back({i, j, 2}), types.push_back({i, j, 3});
                    }
            std::vector<std::vector<int>> lay;
            splits(nP, np, lay);
            const double gaps[4] = {-0.1, 0, 0.02, 3};
            for (int K = 0; K <= 4; K++) {
                const long one = (long)types.size() * 4; // type, gap
                long tot = 1;
                for (int k = 0; k < K; k++)
                    tot *= one;
                long want = K <= 1 ? tot : (th ? 12000 : 900) / np;
                long stride = std::max(1L, tot / want);
                while (stride > 1 && (stride % 2 == 0 || stride % 3 == 0 || stride % 5 == 0 || stride % 7 == 0))
                    stride++;
                long n = 0;
                for (long x = 0; x < tot; x += stride, n++) {
                    auto &parts = lay[n % lay.size()];
                    std::string key = "graph";
                    for (int k : parts)
                        key += vp::fmt(".%d", k);
                    if (!vp::begin(key + vp::fmt(" K%d %ld", K, x)))
                        continue;
                    if (K)
                        vp::nontrivial();
                    for (int s = 0; s < 2; s++)
                        for (int vel = 0; vel < 4; vel++) {
                            Case Q;
                            Q.parts = parts;
                            Q.nq = 1 + n % 3;
                            Q.vel = vel;
                            Q.solver = s;
                            Q.coupled = (n + vel) % 2;
                            Q.dt = (n / 2 + vel) % 3 == 0 ? 1 : 0.01;
                            long t = x;
                            for (int k = 0; k < K; k++) {
                                auto &ty = types[t % types.size()];
                                t /= types.size();
                                double d = gaps[t % 4];
                                t /= 4;
                                double guess = (n + k) % 3 == 0 ? 0 : ((n + k) % 3 == 1 ? std::max(0.0, -d) : 2.5);
                                Q.items.push_back({(int)((n / 3 + k * (1 + n)) % np), (int)((n + k) % Q.nq), make(ty[0], ty[1], ty[2], 31 * k + 7 * nP, d, guess)});
                            }
                            check(Q);
                            if (K && vel % 2 == 0) {
                                Q.maxIte = 1 + n % 6;
                                check(Q);
                            }
                        }
                }
            }
        }
        // crowds
        for (int nP : {4, 12})
            for (int nB : {6, 14})
                for (int mode = 0; mode < (th ? 24 : 8); mode++)
                    for (int s = 0; s < 2; s++) {
                        if (!vp::begin(vp::fmt("crowd p%d b%d m%d s%d", nP, nB, mode, s)))
                            continue;
                        Case Q;
                        Q.parts.assign(np, nP / np);
                        Q.parts[np - 1] += nP - np * (nP / np);
                        if (mode % 4 == 1) {
                            std::fill(Q.parts.begin(), Q.parts.end(), 0);
                            Q.parts[np - 1] = nP;
                        }
                        Q.nq = 1 + mode % 3;
                        Q.vel = mode % 4;
                        Q.solver = s;
                        Q.coupled = mode / 4 % 2;
                        for (int k = 0; k < nB; k++) {
                            uint64_t h = vp::mix(vp::mix(777, k + 1), nB * 7 + mode);
                            int I = h % nP, J = (h >> 8) % nP, kind = (h >> 16) % 5;
                            if (kind == 3)
                                kind = 0;
                            if (I == J)
                                kind = kind % 2 ? 1 : 4;
                            if (mode % 2 && kind % 3 == 1)
                                kind = I == J ? 1 : 0;
                            Q.items.push_back({(int)((h >> 24) % np), (int)((h >> 32) % Q.nq), make(I, J, kind, k, 0.3 * gen(k + mode), 0)});
                        }
                        vp::nontrivial();
                        check(Q);
                        Q.maxIte = 5;
                        check(Q);
                    }
    }
    mp::stop();
}
