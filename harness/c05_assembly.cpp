// C05: assembly of the constraint matrix, its transpose and the vectors; composite operator; writing back.
#include "blocks.hpp"
#include "Util/Logger.hpp"
using namespace blocks;

static bool same(const ConstraintBlock &a, const ConstraintBlock &b, bool withStress) {
    bool ok = a.delta0 == b.delta0 && a.gidI == b.gidI && a.gidJ == b.gidJ && a.globalIndexI == b.globalIndexI && a.globalIndexJ == b.globalIndexJ &&
              a.oneSide == b.oneSide && a.bilateral == b.bilateral && a.kappa == b.kappa;
    for (int d = 0; d < 3; d++)
        ok = ok && a.normI[d] == b.normI[d] && a.normJ[d] == b.normJ[d] && a.posI[d] == b.posI[d] && a.posJ[d] == b.posJ[d] &&
             a.labI[d] == b.labI[d] && a.labJ[d] == b.labJ[d];
    if (withStress)
        for (int k = 0; k < 9; k++)
            ok = ok && a.stress[k] == b.stress[k];
    return ok;
}

static ConstraintCollector *coll;

// full: every unit vector; otherwise two generic vectors
static void check(const std::vector<Item> &items, int nq, const std::vector<int> &parts, bool full) {
    ConstraintCollector &C = *coll;
    fill(C, items, nq);
    auto ord = ordered(items);
    auto rl = rowLayout(items);
    Layout LM(six(parts)), LG(rl);
    int nP = 0;
    for (int k : parts)
        nP += k;
    Mat ref = denseDT(ord, nP);
    Teuchos::RCP<TCMAT> DT;
    Teuchos::RCP<TV> delta0, invK, bi, guess;
    C.buildConstraintMatrixVector(LM.map, DT, delta0, invK, bi, guess);
    VP_CHECK(C.getLocalNumberOfConstraints() == rl[mp::rank], "local number of constraints %d, expected %d", C.getLocalNumberOfConstraints(),
             rl[mp::rank]);
    const int nG = LG.n();
    auto rm = DT->getRangeMap();
    int bad = (int)rm->getNodeNumElements() != rl[mp::rank] || (int)rm->getGlobalNumElements() != nG || !rm->isSameAs(*LG.map) ||
              !DT->getDomainMap()->isSameAs(*LM.map);
    VP_CHECK(!bad, "row or column distribution differs: %d local rows, expected %d", (int)rm->getNodeNumElements(), rl[mp::rank]);
    if (mp::any(bad))
        return;
    const double eps = 1e-14;
    Vec vd = LG.get(delta0.getConst()), vi = LG.get(invK.getConst()), vb = LG.get(bi.getConst()), vg = LG.get(guess.getConst());
    for (int r = 0; r < nG; r++) {
        auto &b = ord[r].b;
        double ik = b.bilateral && b.kappa > 0 ? 1 / b.kappa : 0;
        VP_CHECK(vd[r] == b.delta0 && vg[r] == b.gamma && vb[r] == (b.bilateral ? 1 : 0) && std::fabs(vi[r] - ik) <= 1e-15 * (1 + 4 * ik),
                 "row %d: delta0 %g, guess %g, flag %g, 1/kappa %g; block has %g %g %d kappa %g", r, vd[r], vg[r], vb[r], vi[r], b.delta0, b.gamma,
                 b.bilateral, b.kappa);
    }
    auto out = Teuchos::rcp(new TV(LG.map, true));
    auto cmpDT = [&](const Vec &x, int tag) {
        DT->apply(*LM.vec(x), *out);
        Vec y = LG.get(out.getConst()), e = ref * x;
        for (int r = 0; r < nG; r++)
            VP_CHECK(std::fabs(y[r] - e[r]) <= eps * 30 * (1 + x.lpNorm<1>()), "D^T column/vector %d row %d: %.17g expected %.17g", tag, r, y[r], e[r]);
    };
    Mat M = mobility(nP, true);
    Op mob(LM, M);
    Teuchos::RCP<TOP> mobR = Teuchos::rcp(static_cast<TOP *>(&mob), false);
    ConstraintOperator A(mobR, DT, invK);
    auto D = A.getDMat();
    auto outM = Teuchos::rcp(new TV(LM.map, true));
    auto cmpD = [&](const Vec &g, int tag) {
        D->apply(*LG.vec(g), *outM);
        Vec y = LM.get(outM.getConst()), e = ref.transpose() * g;
        for (int r = 0; r < 6 * nP; r++)
            VP_CHECK(std::fabs(y[r] - e[r]) <= eps * 30 * (1 + g.lpNorm<1>()), "force of vector %d on particle %d component %d: %.17g expected %.17g", tag,
                     r / 6, r % 6, y[r], e[r]);
    };
    if (full) {
        for (int k = 0; k < 6 * nP; k++)
            cmpDT(Vec::Unit(6 * nP, k), k);
        for (int k = 0; k < nG; k++)
            cmpD(Vec::Unit(nG, k), k);
    }
    Vec gx(6 * nP), gg(nG), gy(nG);
    for (int k = 0; k < 6 * nP; k++)
        gx[k] = gen(k + 5);
    for (int k = 0; k < nG; k++)
        gg[k] = gen(k + 9), gy[k] = gen(k + 900);
    cmpDT(gx, -1);
    cmpD(gg, -1);
    // composite operator, Y = alpha A X + beta Y
    const double ab[3][2] = {{1, 0}, {1, 1}, {-0.5, 2}};
    for (auto &c : ab) {
        auto y = LG.vec(gy);
        A.apply(*LG.vec(gg), *y, Teuchos::NO_TRANS, c[0], c[1]);
        Vec f = ref.transpose() * gg, v = M * f, e = ref * v;
        for (int r = 0; r < nG; r++)
            e[r] += gg[r] * (ord[r].b.bilateral && ord[r].b.kappa > 0 ? 1 / ord[r].b.kappa : 0);
        e = c[0] * e + c[1] * gy;
        Vec res = LG.get(y.getConst());
        for (int r = 0; r < nG; r++)
            VP_CHECK(std::fabs(res[r] - e[r]) <= 1e-11 * (1 + M.norm() * gg.norm()), "operator row %d alpha %g beta %g: %.17g expected %.17g", r, c[0], c[1],
                     res[r], e[r]);
        Vec ff = LM.get(A.getForce().getConst()), vv = LM.get(A.getVel().getConst());
        VP_CHECK((ff - f).norm() <= 1e-12 * (1 + f.norm()) && (vv - v).norm() <= 1e-11 * (1 + v.norm()), "force or velocity of the operator differ by %g %g",
                 (ff - f).norm(), (vv - v).norm());
    }
    // assembling does not change the blocks
    std::vector<const Item *> mine;
    for (auto &o : ord)
        if (o.rank == mp::rank)
            mine.push_back(&o);
    auto walk = [&](const char *when, bool after) {
        size_t k = 0;
        int total = 0;
        for (size_t q = 0; q < C.constraintPoolPtr->size(); q++)
            for (auto &b : (*C.constraintPoolPtr)[q]) {
                total++;
                if (k >= mine.size())
                    continue;
                auto &e = *mine[k];
                double g = after ? gg[LG.dis[mp::rank] + k] : e.b.gamma;
                VP_CHECK((int)q == e.queue && same(b, e.b, !after) && b.gamma == g, "block %zu %s: queue %zu gamma %.17g, expected queue %d gamma %.17g%s", k,
                         when, q, b.gamma, e.queue, g, same(b, e.b, !after) ? "" : ", other fields changed");
                if (after)
                    for (int s = 0; s < 9; s++)
                        VP_CHECK(std::fabs(b.stress[s] - g * e.b.stress[s]) <= 1e-15, "block %zu stress %d is %.17g, expected %.17g", k, s, b.stress[s],
                                 g * e.b.stress[s]);
                k++;
            }
        VP_CHECK(total == (int)mine.size(), "%d blocks %s, expected %zu", total, when, mine.size());
    };
    walk("after the assembly", false);
    C.writeBackGamma(LG.vec(gg).getConst());
    walk("after writing back", true);
    uint64_t h = nG * 31 + nP;
    for (int i = 0; i < ref.rows(); i++)
        for (int j = 0; j < ref.cols(); j++)
            h = vp::mix(h, vp::rnd(ref(i, j), 1e-6) + 17 * rl[0]);
    vp::outcome(h);
}

int main(int c, char **v) {
    mp::start(c, v);
    blocks::kappaScale = {1, 1e-3, 0.04, 1e4, 1e-5, 30, 0.2};
    Logger::setup_mpi_spdlog(spdlog::level::off);
    const bool th = vp::S().thorough;
    const int np = mp::np;
    {
        ConstraintCollector cc;
        coll = &cc;
        // every list of up to K blocks over (rank, queue, bodies, kind), strided
        const int nP = 3;
        std::vector<std::array<int, 3>> types; // I, J, kind
        for (int i = 0; i < nP; i++)
            types.push_back({i, -1, 1});
        for (int i = 0; i < nP; i++)
            for (int j = 0; j < nP; j++)
                if (i != j)
                    for (int k : {0, 2})
                        types.push_back({i, j, k});
        types.push_back({0, 2, 3});
        types.push_back({1, -1, 4});
        std::vector<std::vector<int>> lay;
        splits(nP, np, lay);
        for (auto &parts : lay)
            for (int nq : {1, 2, 3})
                for (int K = 0; K <= 3; K++) {
                    const long one = (long)np * nq * types.size();
                    long tot = 1;
                    for (int k = 0; k < K; k++)
                        tot *= one;
                    long want = K <= 1 ? tot : (th ? 3000 : 220) / (int)lay.size() * (np == 1 ? 4 : 3);
                    long stride = std::max(1L, tot / std::max(1L, want));
                    while (K > 1 && stride > 1 && (one % stride == 0 || stride % 2 == 0 || stride % 17 == 0 || stride % 3 == 0))
                        stride++;
                    for (long x = 0; x < tot; x += stride) {
                        std::string key = "list";
                        for (int k : parts)
                            key += vp::fmt(".%d", k);
                        if (!vp::begin(key + vp::fmt(" q%d K%d %ld", nq, K, x)))
                            continue;
                        std::vector<Item> it;
                        long t = x;
                        for (int k = 0; k < K; k++) {
                            int r = t % np;
                            t /= np;
                            int q = t % nq;
                            t /= nq;
                            auto &ty = types[t % types.size()];
                            t /= types.size();
                            it.push_back({r, q, make(ty[0], ty[1] < 0 ? ty[0] : ty[1], ty[2], 31 * k + ty[0] + 5 * ty[1], 0.1 * gen(k + x % 97), std::fabs(gen(k + 3)))});
                        }
                        if (K)
                            vp::nontrivial();
                        check(it, nq, parts, true);
                    }
                }
        // crowds
        for (int nP : {1, 7, 40})
            for (int nB : {1, 5, 60, 300})
                for (int nq : {1, 2, 4, 7})
                    for (int mode = 0; mode < 4; mode++) {
                        if (!vp::begin(vp::fmt("crowd p%d b%d q%d m%d", nP, nB, nq, mode)))
                            continue;
                        std::vector<int> parts(np, nP / np);
                        parts[np - 1] += nP - np * (nP / np);
                        if (mode & 1) { // everything on the last or first rank
                            std::fill(parts.begin(), parts.end(), 0);
                            parts[mode == 1 ? np - 1 : 0] = nP;
                        }
                        std::vector<Item> it;
                        for (int k = 0; k < nB; k++) {
                            uint64_t h = vp::mix(vp::mix(12345, k + 1), nB * 7 + mode);
                            int I = h % nP, J = (h >> 8) % nP, kind = (h >> 16) % 5;
                            if (I == J)
                                kind = kind % 2 ? 1 : 4;
                            int r = (h >> 24) % np;
                            if (mode == 2)
                                r = np - 1; // blocks far away from their bodies
                            it.push_back({r, (int)((h >> 32) % nq), make(I, J, kind, k, gen(k), std::fabs(gen(k + 5)))});
                        }
                        vp::nontrivial();
                        check(it, nq, parts, nB <= 5);
                    }
    }
    mp::stop();
}
