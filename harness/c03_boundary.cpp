// C03: Boundary::project / check on every query point of lattices that include the surface, the centre and the axis.
#include "vp.hpp"
#include <cassert>
#include <iostream>
#include <memory>
#include "Boundary/Boundary.hpp"
#include "Util/EigenDef.hpp"

struct Geo {
    int kind; // 0 sphere 1 wall 2 tube
    Evec3 c, n;
    double R;
    bool inside;
};
// signed depth: > 0 on the allowed side; inward: unit direction of the allowed side at the projection p
static double depth(const Geo &g, const Evec3 &q) {
    if (g.kind == 0) {
        double r = (q - g.c).norm();
        return g.inside ? g.R - r : r - g.R;
    }
    if (g.kind == 1)
        return (q - g.c).dot(g.n);
    Evec3 w = q - g.c;
    double r = (w - w.dot(g.n) * g.n).norm();
    return g.inside ? g.R - r : r - g.R;
}
static Evec3 inward(const Geo &g, const Evec3 &p) {
    if (g.kind == 1)
        return g.n;
    Evec3 w = p - g.c;
    if (g.kind == 2)
        w -= w.dot(g.n) * g.n;
    w.normalize();
    return g.inside ? Evec3(-w) : w;
}

int main(int argc, char **argv) {
    vp::init(argc, argv);
    if (!freopen("/dev/null", "w", stdout))
        return 3;
    const int N = vp::S().thorough ? 6 : 3;
    const double centers[3][3] = {{0, 0, 0}, {1.5, -2.25, 0.5}, {-7.3, 11.1, 3.7}};
    const double dirs[7][3] = {{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, -2, 0}, {1, 1, 1}, {0.3, -0.2, 0.9}, {3, -4, 0}};
    const double radii[4] = {0.5, 1, 2.5, 40};
    std::vector<std::pair<std::string, std::function<std::unique_ptr<Boundary>(Geo &)>>> dummy;
    for (int kind = 0; kind < 3; kind++)
        for (int ci = 0; ci < 3; ci++)
            for (int di = 0; di < (kind == 0 ? 1 : 7); di++)
                for (int ri = 0; ri < (kind == 1 ? 1 : 4); ri++)
                    for (int ins = 0; ins < (kind == 1 ? 1 : 2); ins++)
                        for (int yaml = 0; yaml < 2; yaml++) {
                            Geo g;
                            g.kind = kind;
                            g.c = Evec3(centers[ci][0], centers[ci][1], centers[ci][2]);
                            g.n = Evec3(dirs[di][0], dirs[di][1], dirs[di][2]).normalized();
                            g.R = radii[ri];
                            g.inside = ins;
                            double c[3] = {g.c[0], g.c[1], g.c[2]}, d[3] = {dirs[di][0], dirs[di][1], dirs[di][2]};
                            std::unique_ptr<Boundary> b;
                            if (yaml) {
                                YAML::Node n;
                                for (int k = 0; k < 3; k++) {
                                    n["center"].push_back(c[k]);
                                    if (kind == 1)
                                        n["norm"].push_back(d[k]);
                                    if (kind == 2)
                                        n["axis"].push_back(d[k]);
                                }
                                n["radius"] = g.R;
                                n["inside"] = (bool)g.inside;
                                if (kind == 0)
                                    b.reset(new SphereShell(n));
                                else if (kind == 1)
                                    b.reset(new Wall(n));
                                else
                                    b.reset(new Tube(n));
                            } else {
                                if (kind == 0)
                                    b.reset(new SphereShell(c, g.R, g.inside));
                                else if (kind == 1)
                                    b.reset(new Wall(c, d));
                                else
                                    b.reset(new Tube(c, d, g.R, g.inside));
                            }
                            // query lattices: relative to the centre in units of R/2, so that centre, axis and surface
                            // points (exact and rounded) are all included; plus points shifted along the axis
                            for (int ix = -N; ix <= N; ix++)
                                for (int iy = -N; iy <= N; iy++)
                                    for (int iz = -N; iz <= N; iz++)
                                        for (int m = 0; m < 4; m++) {
                                            const double h = (m == 0 ? 0.5 : m == 1 ? 0.577350269189625764 : 0.21) * (kind == 1 ? 1.0 : g.R);
                                            Evec3 q = g.c + h * Evec3(ix, iy, iz);
                                            if (m == 2)
                                                q = g.c + h * (ix * g.n + iy * g.n.unitOrthogonal() +
                                                               iz * g.n.cross(g.n.unitOrthogonal()));
                                            if (m == 3) { // a hair off the surface / centre
                                                q = g.c + 0.5 * g.R * Evec3(ix, iy, iz) * (1 + 1e-10) + 1e-10 * Evec3(1, -1, 0.5);
                                            }
                                            if (!vp::begin(vp::fmt("k%d/c%d/d%d/r%d/in%d/y%d/m%d/%d,%d,%d", kind, ci, di, ri, ins,
                                                                   yaml, m, ix, iy, iz)))
                                                continue;
                                            double Q[3] = {q[0], q[1], q[2]}, P[3] = {NAN, NAN, NAN}, D[3] = {NAN, NAN, NAN};
                                            b->project(Q, P, D);
                                            const Evec3 p(P[0], P[1], P[2]), dl(D[0], D[1], D[2]);
                                            const double sc = 1 + q.norm() + g.R, tol = 1e-9 * sc;
                                            const double dep = depth(g, q);
                                            VP_CHECK(std::isfinite(p.squaredNorm()) && std::isfinite(dl.squaredNorm()),
                                                     "query %g %g %g: not finite", Q[0], Q[1], Q[2]);
                                            // next to the axis the radial direction of q is only known to rounding / distance
                                            const double ax = kind == 2 ? std::fabs(g.R - (g.inside ? dep : -dep)) : sc;
                                            const double tolDir = tol + std::min(0.01, 1e-14 * sc / std::max(ax, 1e-30)) * g.R;
                                            VP_CHECK(vp::near(depth(g, p), 0, tolDir), "projection is %g off the boundary",
                                                     depth(g, p));
                                            VP_CHECK(vp::near((q - p).norm(), std::fabs(dep), tolDir),
                                                     "|query-project|=%.12g, distance to the boundary %.12g", (q - p).norm(),
                                                     std::fabs(dep));
                                            VP_CHECK(vp::near(dl.norm(), (q - p).norm(), tol), "|delta|=%g, |query-project|=%g",
                                                     dl.norm(), (q - p).norm());
                                            VP_CHECK((dl - dl.norm() * inward(g, p)).norm() <= tolDir,
                                                     "delta (%g %g %g) does not point to the allowed side", D[0], D[1], D[2]);
                                            const double sgn = (q - p).dot(dl);
                                            if (std::fabs(dep) > 1e-6 * sc)
                                                VP_CHECK((sgn > 0) == (dep > 0), "sign of (query-project).delta wrong: depth %g",
                                                         dep);
                                            vp::nontrivial();
                                            vp::outcome(vp::fmt("%d%d %lld %d", kind, ins, vp::rnd(dep / g.R, 1e-3), dep > 0));
                                            if (sc < 20 && std::fabs(dep) > 0.05) { // check() must agree and must reject wrong data
                                                if (m == 0 || m == 2) {
                                                    VP_CHECK(b->check(Q, P, D), "check() rejects a correct projection");
                                                    double D2[3] = {-D[0], -D[1], -D[2]}, D3[3] = {2 * D[0], 2 * D[1], 2 * D[2]};
                                                    double P2[3] = {P[0] + 0.1 * (P[0] - c[0]) + 0.013 * g.n[0],
                                                                    P[1] + 0.1 * (P[1] - c[1]) + 0.013 * g.n[1],
                                                                    P[2] + 0.1 * (P[2] - c[2]) + 0.013 * g.n[2]};
                                                    VP_CHECK(!b->check(Q, P, D2), "check() accepts a reversed delta");
                                                    VP_CHECK(!b->check(Q, P, D3), "check() accepts a doubled delta");
                                                    if (kind != 1)
                                                        VP_CHECK(!b->check(Q, P2, D), "check() accepts a point off the boundary");
                                                }
                                            }
                                        }
                        }
    vp::done();
    vp::finish();
    return 0;
}
