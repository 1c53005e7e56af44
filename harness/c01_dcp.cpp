// C01: segment-segment and point-segment closest points, every configuration of a lattice.
#include "vp.hpp"
#include <algorithm>
#include <cassert>
#include <iostream>
#include "Util/EigenDef.hpp"
#include "Collision/DCPQuery.hpp"

struct V {
    long double x, y, z;
};
static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator*(long double s, V b) { return {s * b.x, s * b.y, s * b.z}; }
static long double dt(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static long double pointSeg2(V p, V a, V b) {
    V d = b - a;
    long double l = dt(d, d), t = l > 0 ? dt(p - a, d) / l : 0;
    t = std::min<long double>(1, std::max<long double>(0, t));
    V r = p - (a + t * d);
    return dt(r, r);
}
// the squared distance is a convex quadratic over [0,1]^2: its minimum is an interior critical point or on an edge,
// i.e. an end point against the other segment
static long double segSeg2(V p0, V p1, V q0, V q1) {
    long double m = std::min(std::min(pointSeg2(p0, q0, q1), pointSeg2(p1, q0, q1)),
                             std::min(pointSeg2(q0, p0, p1), pointSeg2(q1, p0, p1)));
    V u = p1 - p0, v = q1 - q0, w = p0 - q0;
    long double a = dt(u, u), b = dt(u, v), c = dt(v, v), d = dt(u, w), e = dt(v, w), D = a * c - b * b;
    if (D > 1e-15L * a * c) {
        long double s = (b * e - c * d) / D, t = (a * e - b * d) / D;
        if (s >= 0 && s <= 1 && t >= 0 && t <= 1) {
            V r = (p0 + s * u) - (q0 + t * v);
            m = std::min(m, dt(r, r));
        }
    }
    return m;
}

struct Tr {
    const char *name;
    double scale, off[3], sh; // shear breaks lattice exactness
    double eps;               // perturbation of P1 (almost parallel / almost touching)
    double qs = 1;            // length of the second segment relative to the first
};
template <class E>
static E mk(const int *l, const Tr &t, bool pert) {
    double x = l[0], y = l[1] + (pert ? t.eps : 0), z = l[2] + t.sh * l[0] - (pert ? 0.5 * t.eps : 0);
    return E(t.off[0] + t.scale * x, t.off[1] + t.scale * y, t.off[2] + t.scale * z);
}
template <class E>
static V cv(const E &e) {
    return {e[0], e[1], e[2]};
}
template <class E>
static bool onSeg(const E &p, const E &a, const E &b, double par, double tol) {
    if (!(par >= 0 && par <= 1))
        return false;
    E q = (1 - par) * a + par * b;
    return (p - q).norm() <= tol;
}

template <class E>
static void one(const int *p1, const int *q0, const int *q1, const Tr &t) {
    const int zero[3] = {0, 0, 0};
    E P0 = mk<E>(zero, t, false), P1 = mk<E>(p1, t, true), Q0 = mk<E>(q0, t, false), Q1 = mk<E>(q1, t, false);
    if (t.qs != 1)
        Q1 = E(Q0 + t.qs * (Q1 - Q0));
    const double sc = t.scale, tol = 1e-6 * sc;
    DCPSegment3Segment3<double, E> q;
    E a, b;
    double s = -1, u = -1;
    const double d = q(P0, P1, Q0, Q1, a, b, s, u);
    const double ref = std::sqrt((double)segSeg2(cv(P0), cv(P1), cv(Q0), cv(Q1)));
#define W "P1=%d,%d,%d Q0=%d,%d,%d Q1=%d,%d,%d tr=%s"
#define A p1[0], p1[1], p1[2], q0[0], q0[1], q0[2], q1[0], q1[1], q1[2], t.name
    VP_CHECK(vp::near(d, ref, tol), W ": distance %.12g, true minimum %.12g", A, d, ref);
    VP_CHECK(vp::near(d, (a - b).norm(), tol), W ": distance %.12g but |Ploc-Qloc|=%.12g", A, d, (a - b).norm());
    VP_CHECK(onSeg(a, P0, P1, s, tol) && onSeg(b, Q0, Q1, u, tol), W ": closest points not on the segments (s=%g t=%g)",
             A, s, u);
    E a2, b2;
    const double d2 = q(P0, P1, Q0, Q1, a2, b2); // the form without parameters
    VP_CHECK(vp::near(d2, d, tol) && (a2 - a).norm() <= tol && (b2 - b).norm() <= tol, W ": the two call forms disagree",
             A);
    const double ds = q(Q0, Q1, P0, P1, a2, b2); // exchange of the segments
    VP_CHECK(vp::near(ds, d, tol) && vp::near((a2 - b2).norm(), d, tol), W ": not symmetric %.12g %.12g", A, d, ds);
    const double dr = q(P1, P0, Q1, Q0, a2, b2); // reversal of the segments
    VP_CHECK(vp::near(dr, d, tol), W ": depends on segment direction %.12g %.12g", A, d, dr);
    E pp;
    const double dp = DistPointSeg<E>(P1, Q0, Q1, pp);
    const double rp = std::sqrt((double)pointSeg2(cv(P1), cv(Q0), cv(Q1)));
    VP_CHECK(vp::near(dp, rp, tol) && vp::near((pp - P1).norm(), rp, tol) &&
                 vp::near((double)std::sqrt(pointSeg2(cv(pp), cv(Q0), cv(Q1))), 0, tol),
             W ": point-segment distance %.12g, true %.12g", A, dp, rp);
    // kind of configuration, for the outcome count
    int k = (s <= 0 ? 0 : s >= 1 ? 2 : 1) * 3 + (u <= 0 ? 0 : u >= 1 ? 2 : 1);
    vp::outcome(((uint64_t)k << 48) ^ (uint64_t)(ref / sc * 1e4));
}

int main(int argc, char **argv) {
    vp::init(argc, argv);
    const int N = vp::S().thorough ? 3 : 2;
    std::vector<Tr> trs = {{"unit", 1, {0, 0, 0}, 0, 0},
                           {"small", 0.0125, {17.3, -4.1, 0.77}, 0, 0},
                           {"large", 250, {0.1, 0.2, 0.3}, 0, 0},
                           {"shear", 0.31, {-1.7, 2.9, 5.3}, 0.137, 0},
                           {"eps2", 1, {0, 0, 0}, 0, 1e-2},
                           {"eps5", 1, {0.3, 0.1, 0.7}, 0, 1e-5},
                           {"eps9", 1, {0, 0, 0}, 0, 1e-9},
                           {"eps13", 1, {0, 0, 0}, 0, 1e-13},
                           {"tiny", 1e-7, {0, 0, 0}, 0, 0},
                           {"micro", 1e-4, {0.3, 0, 0}, 0, 0},
                           {"shortQ3", 1, {0, 0, 0}, 0, 0, 1e-3},
                           {"shortQ5", 0.7, {2.1, 0, 0.4}, 0, 0, 1e-5},
                           {"longQ", 0.01, {0.2, 0.1, 0}, 0, 1e-4, 1e3}};
    std::vector<std::array<int, 3>> L;
    for (int x = -N; x <= N; x++)
        for (int y = -N; y <= N; y++)
            for (int z = -N; z <= N; z++)
                L.push_back({x, y, z});
    for (auto &t : trs) {
        const int n = (vp::S().thorough && t.name != std::string("unit")) ? 2 : N;
        for (auto &p1 : L) {
            if (std::max({abs(p1[0]), abs(p1[1]), abs(p1[2])}) > n)
                continue;
            for (auto &q0 : L) {
                if (std::max({abs(q0[0]), abs(q0[1]), abs(q0[2])}) > n)
                    continue;
                if (!vp::begin(vp::fmt("%s/P1=%d,%d,%d/Q0=%d,%d,%d", t.name, p1[0], p1[1], p1[2], q0[0], q0[1], q0[2])))
                    continue;
                vp::nontrivial();
                for (auto &q1 : L) {
                    if (std::max({abs(q1[0]), abs(q1[1]), abs(q1[2])}) > n)
                        continue;
                    one<Evec3>(p1.data(), q0.data(), q1.data(), t);
                    vp::count("segment_pairs");
                    vp::S().evaluations++;
                }
                vp::S().evaluations--;
            }
            if (vp::tooMany())
                break;
        }
    }
    vp::done();
    vp::finish();
    return 0;
}
