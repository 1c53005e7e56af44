// C16: drag coefficients and the mobility operator.  Drag of a lattice of shapes and viscosities; the operator of systems of all shape and
// orientation mixes is applied to every unit force and torque (the whole matrix is read out) and compared with the drag of each particle;
// immovable particles under forces, torques, contacts, links and random motion.
#include "sys.hpp"
using sys::Part;

static void drag(double r, double L, double mu, double &para, double &perp, double &rot) {
    if (L < 2 * r) {
        double a = r + 0.5 * L;
        para = perp = 6 * M_PI * mu * a;
        rot = 8 * M_PI * mu * a * a * a;
    } else {
        double b = 2 * std::log(L / r) - 1;
        para = 4 * M_PI * mu * L / b;
        perp = 8 * M_PI * mu * L / (b + 2);
        rot = 2 * M_PI * mu * L * L * L / (3 * (b + 2));
    }
}
static bool close(double a, double b, double rel = 1e-10) { return std::fabs(a - b) <= rel * std::fabs(b); }

static const double radii[] = {1e-3, 0.0125, 0.25, 0.5, 1, 3.75, 1000};
static const double aspect[] = {0, 1e-9, 0.3, 1, 1.5, 1.999999, 2, 2.000001, 2.5, 3, 4.5, 10, 57, 1e3, 1e6}; // length / radius

static void coefficients() {
    for (double r : radii)
        for (double as : aspect)
            for (double mu : {1e-6, 0.01, 1.0, 7.3, 1e4}) {
                double L = r * as;
                if (!vp::begin(vp::fmt("drag r%g l%g mu%g", r, L, mu)))
                    continue;
                Sylinder s;
                s.radius = r;
                s.length = L;
                s.radiusCollision = r * 3; // must not enter
                s.lengthCollision = L * 0.2;
                double a, b, c, a0, b0, c0;
                s.calcDragCoeff(mu, a, b, c);
                drag(r, L, mu, a0, b0, c0);
                VP_CHECK(a > 0 && b > 0 && c > 0, "drag %g %g %g is not positive", a, b, c);
                VP_CHECK(close(a, a0) && close(b, b0) && close(c, c0), "drag %.10g %.10g %.10g, expected %.10g %.10g %.10g", a, b, c, a0, b0, c0);
                double a2, b2, c2;
                s.calcDragCoeff(mu * 8, a2, b2, c2);
                VP_CHECK(close(a2, 8 * a) && close(b2, 8 * b) && close(c2, 8 * c), "drag is not proportional to the viscosity");
                vp::nontrivial();
                vp::outcome(vp::fmt("%.9g %.9g %.9g", a, b, c));
            }
}

// apply the operator to every unit vector and compare with the blocks expected for the particles
static void readout(SylinderSystem &s, double mu, uint64_t &h) {
    auto pp = sys::particles(s);
    int n = pp.size();
    std::map<int, Sylinder *> byIndex;
    for (auto &p : pp)
        byIndex[p.globalIndex] = &p;
    VP_CHECK((int)byIndex.size() == n, "global indices of %d particles are not distinct", n);
    auto op = s.getMobOperator();
    auto dm = op->getDomainMap(), rm = op->getRangeMap();
    VP_CHECK((int)dm->getGlobalNumElements() == 6 * n && (int)rm->getGlobalNumElements() == 6 * n, "operator of size %d x %d for %d particles",
             (int)rm->getGlobalNumElements(), (int)dm->getGlobalNumElements(), n);
    Teuchos::RCP<TV> x = Teuchos::rcp(new TV(dm, true)), y = Teuchos::rcp(new TV(rm, true));
    for (int j = 0; j < 6 * n; j++) {
        auto it = byIndex.find(j / 6);
        if (it == byIndex.end())
            continue;
        const Sylinder &p = *it->second;
        double a, b, c;
        drag(p.radius, p.length, mu, a, b, c);
        Evec3 e(0, 0, 0), q = sys::axis(p.orientation), w;
        e[j % 3] = 1;
        if (j % 6 < 3)
            w = q.dot(e) / a * q + (e - q.dot(e) * q) / b;
        else
            w = e / c;
        if (p.isImmovable)
            w.setZero();
        double scale = 1 / std::min(std::min(a, b), c);
        x->putScalar(0);
        y->putScalar(42);
        if (dm->isNodeGlobalElement(j))
            x->replaceGlobalValue(j, 1.0);
        op->apply(*x, *y);
        auto yv = y->getLocalView<Kokkos::HostSpace>();
        for (int i = 0; i < (int)rm->getNodeNumElements(); i++) {
            int g = rm->getGlobalElement(i);
            double want = 0;
            bool own = g / 6 == j / 6;
            if (own && (g % 6 < 3) == (j % 6 < 3))
                want = w[g % 3];
            double v = yv(i, 0);
            bool ok = want == 0 && (!own || p.isImmovable || (g % 6 < 3) != (j % 6 < 3)) ? v == 0 : vp::near(v, want, 1e-12 * scale + 1e-10 * std::fabs(want));
            VP_CHECK(ok, "particle %d (r %g l %g%s), unit load %d gives row %d velocity %.10g instead of %.10g", p.gid, p.radius, p.length, p.isImmovable ? " immovable" : "", j % 6,
                     g, v, want);
            if (own)
                h = vp::mix(h, vp::rnd(v / scale, 1e-6));
        }
        vp::count("operator_columns");
    }
}

static void systems() {
    bool th = vp::S().thorough;
    const double sh[][2] = {{0.5, 0}, {0.5, 0.7}, {0.5, 1.0}, {0.25, 2.5}, {0.05, 3}, {0.125, 0.25}, {1, 1.5}};
    const int ns = 7;
    std::vector<Equatn> qs;
    for (int x = -1; x <= 1; x++)
        for (int y = -1; y <= 1; y++)
            for (int z = -1; z <= 1; z++)
                if (x || y || z)
                    qs.push_back(sys::dirq(x + 0.1 * y, y, z));
    for (int i = 0; i < 5; i++)
        qs.push_back(Equatn(0.3 + i, -1, 0.2 * i, 0.7 - i).normalized());
    const int mus = 3;
    const double mu[mus] = {1, 0.01, 12};
    for (int n : {1, 2, 3, 5, 9})
        for (int a = 0; a < ns; a++)
            for (int b = 0; b < (n > 1 ? ns : 1); b += th ? 1 : 2)
                for (int imm = 0; imm < (n ? 4 : 1); imm++) {
                    if (n > 2 && (a + b + imm) % (th ? 1 : 3))
                        continue;
                    int im = (a + b + n + imm) % mus;
                    if (!vp::begin(vp::fmt("system n%d a%d b%d imm%d mu%g", n, a, b, imm, mu[im])))
                        continue;
                    auto cf = sys::config();
                    cf.viscosity = mu[im];
                    cf.sylinderDiameterColRatio = a % 2 ? 1.5 : 1;
                    cf.sylinderLengthColRatio = b % 2 ? 0.5 : 1;
                    for (int k = 0; k < 3; k++)
                        cf.simBoxPBC[k] = (a >> k) & 1;
                    std::vector<Part> p(n);
                    for (int i = 0; i < n; i++) {
                        int t = i == 0 ? a : (i == 1 ? b : (a * i + b + 2 * i) % ns);
                        p[i].gid = (i * 5 + 3) % 97;
                        p[i].radius = sh[t][0];
                        p[i].length = sh[t][1];
                        p[i].imm = imm == 0 ? false : (imm == 1 ? true : i % 2 == imm - 2);
                        p[i].q = qs[(a * 11 + b * 3 + i * 7 + imm) % qs.size()];
                        p[i].pos = Evec3(0.3 + 0.8 * i, 7.5 - 0.8 * i, 1 + (i * 3) % 7);
                    }
                    auto s = sys::make(cf, p);
                    uint64_t h = 7;
                    s->prepareStep();
                    readout(*s, cf.viscosity, h);
                    // the velocity obtained from given forces and torques; the orientations then move and the next step must use the new ones
                    for (int step = 0; step < 2; step++) {
                        if (step)
                            s->prepareStep();
                        auto loc = sys::localParticles(*s);
                        std::vector<double> f(6 * loc.size());
                        for (size_t i = 0; i < f.size(); i++)
                            f[i] = std::sin(1.0 + loc[i / 6].gid * 1.7 + (i % 6) * 2.3) * 3;
                        s->setForceNonBrown(f);
                        s->runConfig.KBT = imm == 1 ? 0.3 : 0;
                        s->runStep();
                        auto now = sys::localParticles(*s);
                        VP_CHECK(now.size() == loc.size(), "particles lost");
                        for (size_t i = 0; i < loc.size() && i < now.size(); i++) {
                            auto &p0 = loc[i], &p1 = now[i];
                            double pa, pe, ro;
                            drag(p0.radius, p0.length, cf.viscosity, pa, pe, ro);
                            Evec3 F(f[6 * i], f[6 * i + 1], f[6 * i + 2]), T(f[6 * i + 3], f[6 * i + 4], f[6 * i + 5]), q = sys::axis(p0.orientation);
                            Evec3 v = q.dot(F) / pa * q + (F - q.dot(F) * q) / pe, w = T / ro;
                            if (p0.isImmovable) {
                                v.setZero();
                                w.setZero();
                                bool still = true, rest = true;
                                for (int k = 0; k < 3; k++) {
                                    still = still && p1.pos[k] == p0.pos[k];
                                    rest = rest && p1.velNonB[k] == 0 && p1.velBrown[k] == 0 && p1.velCol[k] == 0 && p1.velBi[k] == 0 && p1.omegaNonB[k] == 0 &&
                                           p1.omegaBrown[k] == 0 && p1.omegaCol[k] == 0 && p1.omegaBi[k] == 0 && p1.vel[k] == 0 && p1.omega[k] == 0;
                                }
                                VP_CHECK(rest, "immovable particle %d has a velocity", p0.gid);
                                VP_CHECK(still && (sys::axis(p1.orientation) - q).norm() < 1e-14, "immovable particle %d moved", p0.gid);
                                vp::count("immovable_steps");
                            }
                            VP_CHECK((ECmap3(p1.velNonB) - v).norm() <= 1e-10 * v.norm() && (ECmap3(p1.omegaNonB) - w).norm() <= 1e-10 * w.norm(),
                                     "step %d particle %d (r %g l %g): velocity of the given force (%.9g %.9g %.9g | %.9g %.9g %.9g) instead of (%.9g %.9g %.9g | %.9g %.9g %.9g)", step,
                                     p0.gid, p0.radius, p0.length, p1.velNonB[0], p1.velNonB[1], p1.velNonB[2], p1.omegaNonB[0], p1.omegaNonB[1], p1.omegaNonB[2], v[0], v[1], v[2], w[0],
                                     w[1], w[2]);
                        }
                    }
                    if (n)
                        vp::nontrivial();
                    vp::outcome(h);
                }
}

// immovable particles in contact, linked, next to a wall, with Brownian motion
static void pinned() {
    for (int mask = 0; mask < 8; mask++)
        for (int lk = 0; lk < 2; lk++)
            for (int kbt = 0; kbt < 2; kbt++)
                for (int sh = 0; sh < 3; sh++) {
                    if (!vp::begin(vp::fmt("pinned %d link%d kbt%d shape%d", mask, lk, kbt, sh)))
                        continue;
                    auto cf = sys::config();
                    cf.KBT = kbt ? 0.5 : 0;
                    cf.conMaxIte = 3000; // a particle squeezed between two immovable ones has no solution
                    double c[3] = {0, 0, 3.4}, nn[3] = {0, 0, 1};
                    cf.boundaryPtr.push_back(std::make_shared<Wall>(c, nn));
                    std::vector<Part> p(3);
                    for (int i = 0; i < 3; i++) {
                        p[i].gid = i;
                        p[i].imm = (mask >> i) & 1;
                        p[i].radius = 0.5;
                        p[i].length = sh == 0 ? 0 : (sh == 1 ? 0.5 : 2);
                        p[i].pos = Evec3(3 + 0.9 * i, 4 + 0.1 * i, 3.8);
                        p[i].q = sys::dirq(0.1 * i, 1, 0.2 * i);
                    }
                    auto s = sys::make(cf, p, lk ? std::vector<Link>{{0, 1}, {1, 2}} : std::vector<Link>{});
                    for (int step = 0; step < 3; step++) {
                        s->prepareStep();
                        s->runStep();
                    }
                    uint64_t h = 5;
                    int moved = 0;
                    for (auto &a : sys::particles(*s)) {
                        bool same = (ECmap3(a.pos) - p[a.gid].pos).norm() == 0 && (sys::axis(a.orientation) - p[a.gid].q * Evec3(0, 0, 1)).norm() < 1e-14;
                        if (a.isImmovable)
                            VP_CHECK(same, "immovable particle %d moved by %g", a.gid, (ECmap3(a.pos) - p[a.gid].pos).norm());
                        else
                            moved += !same;
                        VP_CHECK(a.isImmovable == p[a.gid].imm, "flag of particle %d changed", a.gid);
                        h = vp::mix(h, same);
                    }
                    VP_CHECK(mask == 7 || moved > 0, "nothing moved");
                    vp::nontrivial();
                    vp::outcome(h + mask);
                }
}

int main(int c, char **v) {
    sys::start(c, v);
    if (sys::rank == 0)
        coefficients();
    systems();
    pinned();
    sys::stop();
}
