// C07 in whole steps of the system: the blocks of the step, with the velocities the particles report, obey complementarity, the spring law and
// momentum for every time step, viscosity, stiffness, solver, load and number of boundaries, in every step of a run.
#include "sys.hpp"
using sys::Part;

static double g01(int k) {
    double x = std::sin(12.9898 * (k + 1) + 0.7) * 43758.5453;
    return x - std::floor(x);
}
static const double DTS[] = {1e-4, 0.003, 0.02}, MUS[] = {0.4, 1, 6}, KAPPA[] = {8, 250, 1e4};

static std::vector<Part> crowd(int n, int geo, bool flat) {
    std::vector<Part> p(n);
    for (int i = 0; i < n; i++) {
        p[i].gid = 3 * i + 2;
        p[i].radius = 0.2 + 0.05 * (i % 3);
        p[i].length = i % 4 == 3 ? 0.2 : 0.5 + 0.4 * (i % 3);
        p[i].imm = i % 6 == 5;
        p[i].group = i;
        const int row = i / 4, k = i % 4;
        const double gap = geo == 0 ? 0.02 : geo == 1 ? (k % 2 ? -0.03 : 0.02) : -0.015;
        double h = 0.3 + (0.48 + gap) * k;
        p[i].pos = flat ? Evec3(1.2 + 2.2 * (row % 3) + 0.1 * g01(i), 0.6 + h + 2.4 * (row / 3), 4) : Evec3(1.2 + 2.2 * (row % 3) + 0.1 * g01(i), 1.2 + 2.2 * (row / 3) + 0.05 * g01(i + 9), h - 0.06);
        p[i].q = sys::dirq(1, 0.3 * (g01(i + 90) - 0.5), flat ? 0 : 0.2 * (g01(i + 130) - 0.5));
    }
    return p;
}
static double at(const ConstraintBlock &b, const std::map<int, const Sylinder *> &by) {
    auto rate = [&](int gid, const double *n, const double *x) {
        const Sylinder &a = *by.at(gid);
        Evec3 N = ECmap3(n), X = ECmap3(x), V = ECmap3(a.vel), W = ECmap3(a.omega);
        return N.dot(V) + X.cross(N).dot(W);
    };
    double r = rate(b.gidI, b.normI, b.posI);
    if (!b.oneSide)
        r += rate(b.gidJ, b.normJ, b.posJ);
    return r;
}
int main(int argc, char **argv) {
    sys::start(argc, argv);
    const bool th = vp::S().thorough;
    const int ns[] = {1, 2, 4, 9, 22};
    for (int in = 0; in < 5; in++)
        for (int geo = 0; geo < 3; geo++)
            for (int ph = 0; ph < 27; ph++)
                for (int load = 0; load < 4; load++) // none, forces, velocities, both
                    for (int kind = 0; kind < 12; kind++) {
                        if (!th && (in * 5 + geo * 3 + ph + load + kind) % (sys::nproc == 1 ? 19 : 37))
                            continue;
                        const int walls = kind % 4 == 3 ? 4 : kind % 4, links = (kind / 4 + in) % 3, solver = (ph + load) % 2;
                        const bool flat = (kind + geo + load) % 5 == 0, hot = (ph + kind) % 4 == 1, pbc = (kind + ph) % 3 == 0;
                        const int n = ns[in];
                        if (!vp::begin(vp::fmt("n%d geo%d physics%d load%d kind%d", n, geo, ph, load, kind)))
                            continue;
                        auto cf = sys::config();
                        cf.dt = DTS[ph % 3];
                        cf.viscosity = MUS[ph / 3 % 3];
                        cf.linkKappa = KAPPA[ph / 9];
                        cf.linkGap = 0.05;
                        cf.conSolverChoice = solver;
                        cf.conResTol = 1e-6;
                        cf.conMaxIte = 30000;
                        cf.monolayer = flat;
                        cf.KBT = hot ? 1e-4 : 0;
                        cf.simBoxPBC[0] = pbc;
                        double zero[3] = {0, 0, 0}, up[3] = {0, 0, 1}, side[3] = {0, 0.58, 0}, ey[3] = {0, 1, 0}, far[3] = {-9, 0, 0}, ex[3] = {1, 0, 0}, mid[3] = {4, 4, 4};
                        for (int w = 0; w < walls; w++) // the last one is the floor
                            if (w + 1 == walls)
                                cf.boundaryPtr.push_back(flat ? std::make_shared<Wall>(side, ey) : std::make_shared<Wall>(zero, up));
                            else if (w % 2)
                                cf.boundaryPtr.push_back(std::make_shared<Wall>(far, ex));
                            else
                                cf.boundaryPtr.push_back(std::make_shared<SphereShell>(mid, 12, true));
                        auto p = crowd(n, geo, flat);
                        std::vector<Link> l;
                        for (int i = 1; links && i < n; i++)
                            if (links == 2 ? i % 2 : i % 3 == 0)
                                l.push_back(Link{p[i - 1].gid, p[i].gid});
                        auto s = sys::make(cf, p, l);
                        uint64_t hash = n;
                        for (int st = 0; st < 2; st++) {
                            s->prepareStep();
                            auto loc = sys::localParticles(*s);
                            std::vector<double> f(6 * loc.size()), v(6 * loc.size());
                            for (size_t i = 0; i < f.size(); i++) {
                                int id = loc[i / 6].gid * 6 + i % 6;
                                f[i] = cf.viscosity * ((g01(id) - 0.5) * (i % 6 < 3 ? 3 : 0.5) - (i % 6 == (flat ? 1 : 2) ? 2 : 0));
                                v[i] = 0.8 * (g01(id + 4000 + 700 * st) - 0.5) - (i % 6 == (flat ? 1 : 2) ? 0.5 : 0);
                            }
                            if (load & 1)
                                s->setForceNonBrown(f);
                            if (load & 2)
                                s->setVelocityNonBrown(v);
                            s->runStep();
                            auto now = sys::particles(*s);
                            auto bl = sys::blocks(*s);
                            std::map<int, const Sylinder *> by;
                            double vm = 1;
                            for (auto &a : now) {
                                by[a.gid] = &a;
                                for (int k = 0; k < 3; k++)
                                    vm = std::max({vm, std::fabs(a.velNonB[k] + a.velBrown[k]), std::fabs(a.omegaNonB[k] + a.omegaBrown[k])});
                            }
                            bool deep = false; // centre lines that cross have no separating direction
                            for (auto &b : bl)
                                deep |= !b.bilateral && b.delta0 < -0.35;
                            if (deep) {
                                vp::count("left_out_deep_overlaps");
                                break;
                            }
                            long nl = 0, floor = 0, uni = 0;
                            std::map<int, Evec3> F; // contact and link forces, net of walls
                            Evec3 net = Evec3::Zero(), col = Evec3::Zero();
                            double mag = 0;
                            for (auto &b : bl) {
                                // the residual of the solver is a rate; roundings of the gap are amplified by 1/dt
                                const double tol = (solver ? 2e-3 : 2e-5) * vm + 1e-11 / cf.dt;
                                const double end = b.delta0 / cf.dt + at(b, by);
                                mag += std::fabs(b.gamma);
                                const char *t = b.bilateral ? "link" : b.oneSide ? "wall contact" : "contact";
                                if (b.bilateral) {
                                    nl++;
                                    const double dev = end + b.gamma / (b.kappa * cf.dt);
                                    VP_CHECK(std::fabs(dev) <= tol, "step %d %s %d-%d: force %g, extension at the end %g, stiffness %g: off by a rate of %g", st, t, b.gidI, b.gidJ, b.gamma,
                                             end * cf.dt, b.kappa, dev);
                                } else {
                                    (b.oneSide ? floor : uni)++;
                                    VP_CHECK(b.gamma >= 0, "step %d %s %d-%d pulls with %g", st, t, b.gidI, b.gidJ, b.gamma);
                                    VP_CHECK(end >= -tol, "step %d %s %d-%d: force %g, gap at the end of the step %g (rate %g, tolerance %g)", st, t, b.gidI, b.gidJ, b.gamma, end * cf.dt, end, tol);
                                    if (b.gamma > 1e-9)
                                        VP_CHECK(end <= tol, "step %d %s %d-%d: force %g although the gap at the end of the step is %g (rate %g, tolerance %g)", st, t, b.gidI, b.gidJ, b.gamma,
                                                 end * cf.dt, end, tol);
                                    vp::count(b.gamma > 1e-9 ? "active_contacts" : "open_contacts");
                                }
                                if (b.oneSide)
                                    col += b.gamma * ECmap3(b.normI);
                            }
                            Evec3 fc = Evec3::Zero(), fb = Evec3::Zero();
                            for (auto &a : now)
                                fc += ECmap3(a.forceCol), fb += ECmap3(a.forceBi);
                            VP_CHECK((fc - col).norm() < 1e-8 * (1 + mag) && fb.norm() < 1e-8 * (1 + mag), "step %d: contacts between bodies exert a net force %g, links %g", st, (fc - col).norm(), fb.norm());
                            VP_CHECK(nl == (long)l.size(), "step %d: %ld link constraints for %zu links", st, nl, l.size());
                            if (st == 0 && walls)
                                VP_CHECK(floor > 0, "no contact with the floor among %d boundaries", walls);
                            if (st == 0 && n > 1 && geo)
                                VP_CHECK(uni > 0, "no contact between the bodies");
                            vp::count("links", nl);
                            vp::count("steps");
                            hash = vp::mix(hash, (uint64_t)vp::rnd(mag, 1e-2) + bl.size());
                            if (mag > 0)
                                vp::nontrivial();
                        }
                        vp::S().states += 2;
                        vp::S().transitions += 2;
                        vp::outcome(hash);
                    }
    sys::stop();
}
