// Constraint blocks with known geometry, spread over ranks and thread queues, and their dense reference matrix.
#ifndef VP_BLOCKS_HPP
#define VP_BLOCKS_HPP
#include "Constraint/ConstraintSolver.hpp"
#include "dense.hpp"
namespace blocks {
using namespace dense;
using V3 = Eigen::Vector3d;

inline double gen(int k) { // generic, reproducible numbers in (-1,1)
    double x = std::sin(12.9898 * (k + 1) + 0.7) * 43758.5453;
    return 2 * (x - std::floor(x)) - 1;
}
inline V3 unit(int k) {
    V3 v(gen(3 * k), gen(3 * k + 1), gen(3 * k + 2));
    while (v.norm() < 0.1)
        v += V3(0.3, 0.2, 0.1);
    return v.normalized();
}
inline V3 center(int i) { return V3(3 * gen(1000 + i), 3 * gen(2000 + i), 3 * gen(3000 + i)); }

struct Item { // one block and where it lives
    int rank, queue;
    ConstraintBlock b;
};

// spring constants: the factors that are used
static std::vector<double> kappaScale{1};

// kind: 0 two-sided contact, 1 one-sided contact, 2 spring, 3 rigid bilateral (kappa = 0), 4 one-sided spring
inline ConstraintBlock make(int I, int J, int kind, int salt, double delta0, double gamma = 0) {
    V3 n = unit(salt), pI = 0.8 * V3(gen(salt + 300), gen(salt + 400), gen(salt + 500));
    V3 labI = center(I) + pI, labJ = labI - delta0 * n, pJ = labJ - center(J);
    V3 m = -n;
    bool one = kind == 1 || kind == 4, bi = kind >= 2;
    if (one)
        pJ = V3::Zero(), J = I; // as in the boundary collection
    ConstraintBlock b(delta0, gamma, 10 + I, one ? -1 : 10 + J, I, one ? -1 : J, n.data(), m.data(), pI.data(), pJ.data(), labI.data(), labJ.data(),
                      one, bi, kind == 2 || kind == 4 ? (20.0 + 10 * gen(salt + 600)) * kappaScale[(salt % 7919 + 7919) % kappaScale.size()] : 0, 0);
    Emat3 s;
    for (int a = 0; a < 9; a++)
        s(a / 3, a % 3) = gen(salt + 700 + a);
    b.setStress(s);
    return b;
}

inline void fill(ConstraintCollector &c, const std::vector<Item> &items, int nq) {
    c.clear();
    c.constraintPoolPtr->resize(nq);
    for (auto &q : *c.constraintPoolPtr)
        q.clear();
    for (auto &it : items)
        if (it.rank == mp::rank)
            (*c.constraintPoolPtr)[it.queue].push_back(it.b);
}
// the row order: ranks, then queues, then insertion
inline std::vector<Item> ordered(const std::vector<Item> &items) {
    auto o = items;
    std::stable_sort(o.begin(), o.end(), [](const Item &a, const Item &b) { return std::make_pair(a.rank, a.queue) < std::make_pair(b.rank, b.queue); });
    return o;
}
inline std::vector<int> rowLayout(const std::vector<Item> &items) {
    std::vector<int> r(mp::np, 0);
    for (auto &i : items)
        r[i.rank]++;
    return r;
}
// rows of D^T: force (norm) and torque (arm x norm) on every body
inline Mat denseDT(const std::vector<Item> &o, int nPart) {
    Mat D = Mat::Zero(o.size(), 6 * nPart);
    for (size_t r = 0; r < o.size(); r++) {
        auto &b = o[r].b;
        auto add = [&](int g, const double *n, const double *p) {
            V3 N(n[0], n[1], n[2]), P(p[0], p[1], p[2]), T = P.cross(N);
            for (int d = 0; d < 3; d++)
                D(r, 6 * g + d) += N[d], D(r, 6 * g + 3 + d) += T[d];
        };
        add(b.globalIndexI, b.normI, b.posI);
        if (!b.oneSide)
            add(b.globalIndexJ, b.normJ, b.posJ);
    }
    return D;
}
inline Mat mobility(int n, bool coupled) { // 6n x 6n SPD
    Mat M = Mat::Zero(6 * n, 6 * n);
    for (int i = 0; i < n; i++) {
        V3 q = unit(77 + i);
        double a = 1.0 + 0.3 * gen(i), b = 0.6 + 0.2 * gen(i + 50), r = 1.5 + 0.5 * gen(i + 90);
        M.block<3, 3>(6 * i, 6 * i) = a * q * q.transpose() + b * (Eigen::Matrix3d::Identity() - q * q.transpose());
        M.block<3, 3>(6 * i + 3, 6 * i + 3) = r * Eigen::Matrix3d::Identity();
    }
    if (coupled) {
        Mat B(6 * n, 6 * n);
        for (int i = 0; i < 6 * n; i++)
            for (int j = 0; j < 6 * n; j++)
                B(i, j) = 0.2 * gen(i * 131 + j * 17);
        M += B * B.transpose();
        M = (0.5 * (M + M.transpose())).eval();
    }
    return M;
}
inline std::vector<int> six(std::vector<int> l) {
    for (auto &x : l)
        x *= 6;
    return l;
}
} // namespace blocks
#endif
