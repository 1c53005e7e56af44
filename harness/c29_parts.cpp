// C29: decomposition of velocities and forces over histories of loads, contacts, links and noise; bounding box, order parameter and volume fraction.
#include "logsink.hpp"
#include "sys.hpp"
using sys::Part;

static void drag(double r, double L, double mu, double &para, double &perp, double &rot) {
    if (L < 2 * r) {
        double a = r + 0.5 * L;
        para = perp = 6 * M_PI * mu * a;
        rot = 8 * M_PI * mu * a * a * a;
    } else {
        double b = 2 * std::log(L / r) - 1;
        para = 4 * M_PI * mu * L / b;
        perp = 8 * M_PI * mu * L / (b + 2);
        rot = 2 * M_PI * mu * L * L * L / (3 * (b + 2));
    }
}
static void mob(const Sylinder &p, double mu, const double *f, double *v) { // 6 -> 6
    if (p.isImmovable) {
        std::fill(v, v + 6, 0.0);
        return;
    }
    double a, b, c;
    drag(p.radius, p.length, mu, a, b, c);
    Evec3 q = sys::axis(p.orientation), F(f[0], f[1], f[2]);
    Evec3 u = q.dot(F) / a * q + (F - q.dot(F) * q) / b;
    for (int k = 0; k < 3; k++)
        v[k] = u[k], v[3 + k] = f[3 + k] / c;
}
static void six(const double *a, const double *b, double *v) {
    for (int k = 0; k < 3; k++)
        v[k] = a[k], v[3 + k] = b[k];
}
static double diff(const double *a, const double *b, int n = 6) {
    double m = 0;
    for (int k = 0; k < n; k++)
        m = std::max(m, std::fabs(a[k] - b[k]) / (1 + std::fabs(b[k])));
    return m == m ? m : 1e300;
}

// ---- observables
static void observables(SylinderSystem &s, uint64_t &h) {
    auto pp = sys::particles(s);
    auto loc = sys::localParticles(s);
    double low[3], high[3], glow[3], ghigh[3];
    s.calcBoundingBox(low, high, glow, ghigh);
    auto extent = [&](const std::vector<Sylinder> &v, Evec3 &lo, Evec3 &hi) {
        lo.setConstant(1e300), hi.setConstant(-1e300);
        for (auto &p : v)
            for (int e = -1; e <= 1; e += 2) {
                Evec3 x = ECmap3(p.pos) + 0.5 * e * p.length * sys::axis(p.orientation);
                lo = lo.cwiseMin(x), hi = hi.cwiseMax(x);
            }
    };
    Evec3 lo, hi;
    extent(pp, lo, hi);
    for (int k = 0; k < 3; k++)
        VP_CHECK(vp::near(glow[k], lo[k], 1e-9 * (1 + std::fabs(lo[k]))) && vp::near(ghigh[k], hi[k], 1e-9 * (1 + std::fabs(hi[k]))),
                 "global bounding box %d: (%g %g), particles extend over (%g %g)", k, glow[k], ghigh[k], lo[k], hi[k]);
    if (loc.size()) {
        extent(loc, lo, hi);
        for (int k = 0; k < 3; k++)
            VP_CHECK(vp::near(low[k], lo[k], 1e-9 * (1 + std::fabs(lo[k]))) && vp::near(high[k], hi[k], 1e-9 * (1 + std::fabs(hi[k]))),
                     "local bounding box %d: (%g %g), particles extend over (%g %g)", k, low[k], high[k], lo[k], hi[k]);
    }
    // order and volume
    logsink::lines.clear();
    spdlog::set_level(spdlog::level::info);
    auto lv = s.runConfig.logLevel;
    s.runConfig.logLevel = spdlog::level::info;
    s.calcOrderParameter();
    s.calcVolFrac();
    s.runConfig.logLevel = lv;
    spdlog::set_level(spdlog::level::off);
    if (sys::rank == 0) {
        Evec3 P(0, 0, 0);
        Emat3 Q = Emat3::Zero();
        double vol = 0;
        for (auto &p : pp) {
            Evec3 d = sys::axis(p.orientation);
            P += d / pp.size();
            Q += (d * d.transpose() - Emat3::Identity() / 3) / pp.size();
            vol += M_PI * p.radius * p.radius * p.length + 4 * M_PI / 3 * std::pow(p.radius, 3);
        }
        auto v = logsink::numbers("Order P");
        VP_CHECK(v.size() == 12, "order parameter line has %zu numbers", v.size());
        v.resize(12, 99);
        for (int k = 0; k < 12; k++) {
            double w = k < 3 ? P[k] : Q((k - 3) / 3, (k - 3) % 3);
            VP_CHECK(vp::near(v[k], w, 1e-5), "order parameter %d is reported as %g, the average over the particles is %g", k, v[k], w);
            h = vp::mix(h, vp::rnd(w, 1e-4));
        }
        auto V = logsink::numbers("Volume Sylinder"), F = logsink::numbers("Volume fraction");
        double box = 1;
        for (int k = 0; k < 3; k++)
            box *= s.runConfig.simBoxHigh[k] - s.runConfig.simBoxLow[k];
        VP_CHECK(V.size() == 1 && vp::near(V[0], vol, 2e-5 * vol), "volume is reported as %g, it is %g", V.empty() ? -1 : V[0], vol);
        VP_CHECK(F.size() == 1 && vp::near(F[0], vol / box, 2e-5 * vol / box), "volume fraction is reported as %g, it is %g", F.empty() ? -1 : F[0], vol / box);
    }
}

static void boxes() {
    bool th = vp::S().thorough;
    const double offs[] = {0, -5, -30, 12, -1e4, 1e4};
    for (int n = 1; n <= (th ? 7 : 5); n++)
        for (int ox = 0; ox < 6; ox++)
            for (int oy = 0; oy < 6; oy++)
                for (int var = 0; var < 6; var++) {
                    if (!th && (n + ox + oy + var) % 2)
                        continue;
                    if (!vp::begin(vp::fmt("box n%d off%g,%g var%d", n, offs[ox], offs[oy], var)))
                        continue;
                    auto cf = sys::config();
                    const double off[3] = {offs[ox], offs[oy], offs[(ox + oy + var) % 6]};
                    for (int k = 0; k < 3; k++) {
                        cf.simBoxLow[k] = off[k];
                        cf.simBoxHigh[k] = off[k] + 8 + k;
                        cf.simBoxPBC[k] = var >> k & 1;
                    }
                    if (ox % 2) // bodies may collide as larger or smaller ones than they are
                        cf.sylinderDiameterColRatio = oy % 2 ? 1.15 : 0.9, cf.sylinderLengthColRatio = var % 2 ? 0.8 : 1.3;
                    std::vector<Part> p(n);
                    int d = 0;
                    for (int i = 0; i < n; i++) {
                        d = (7 * i + 5 * var + 3 * n) % 26;
                        int c = d < 13 ? d : d + 1;
                        p[i].gid = 3 * i + 1;
                        p[i].radius = 0.1 + 0.2 * (i % 3);
                        p[i].length = (i + var) % 4 * 0.9;
                        p[i].q = sys::dirq(c % 3 - 1, c / 3 % 3 - 1, c / 9 - 1);
                        for (int k = 0; k < 3; k++)
                            p[i].pos[k] = off[k] + (var == 5 ? 0.5 * i : 0.3 + std::fmod(2.3 * (i + 1) * (k + 1.3) + var, 7.4));
                    }
                    auto s = sys::make(cf, p);
                    uint64_t h = n;
                    observables(*s, h);
                    // moved, also out of the box, and onto other ranks
                    for (auto &a : p)
                        a.pos -= Evec3(3, -2, 9);
                    sys::setExact(*s, p);
                    observables(*s, h);
                    s->prepareStep();
                    observables(*s, h);
                    vp::nontrivial();
                    vp::outcome(h);
                    vp::count("observed_systems", 3);
                }
}

// ---- histories
static std::vector<Part> parts(bool touch, bool wall, int var) {
    std::vector<Part> p(6);
    double g = touch ? -0.02 : 0.4;
    for (int i = 0; i < 6; i++) {
        p[i].gid = 11 * i % 7;
        p[i].radius = 0.25;
        p[i].length = i % 2 ? 0.9 : 0.3;
        p[i].q = sys::dirq(1, 0.1 * ((i + var) % 3), 0.05 * i);
        p[i].pos = Evec3(2 + 3.5 * (i / 3), 3 + 0.01 * var, 2.0 + (i % 3) * (0.5 + g));
        p[i].imm = i == 4;
    }
    if (wall)
        p[5].pos[2] = 0.24;
    return p;
}
static void histories() {
    bool th = vp::S().thorough;
    const int NS = 32; // force, velocity, noise, contact, wall contact
    for (int depth = 1; depth <= 3; depth++) {
        long total = 1;
        for (int i = 0; i < depth; i++)
            total *= NS;
        long stride = depth == 1 ? 1 : depth == 2 ? 1 : (th ? 5 : 127);
        for (long hist = 0; hist < total; hist += stride)
            for (int mono = 0; mono < 2; mono++) {
                if (!th && depth > 2 && (hist / stride + mono) % 2)
                    continue;
                std::string key = "hist";
                std::vector<int> ops;
                long r = hist;
                for (int i = 0; i < depth; i++, r /= NS)
                    ops.push_back(r % NS), key += vp::fmt(" %d", int(r % NS));
                if (!vp::begin(key + (mono ? " flat" : "")))
                    continue;
                auto cf = sys::config();
                cf.monolayer = mono;
                double c[3] = {0, 0, 0}, nn[3] = {0, 0, 1};
                for (int i = 0; i < hist % 4; i++) { // boundaries far away
                    double fc[3] = {-20.0 - i, 4, 4}, fn[3] = {1, 0, 0}, sc[3] = {4, 4, 4};
                    if (i % 2)
                        cf.boundaryPtr.push_back(std::make_shared<SphereShell>(sc, 40 + i, true));
                    else
                        cf.boundaryPtr.push_back(std::make_shared<Wall>(fc, fn));
                }
                cf.boundaryPtr.push_back(std::make_shared<Wall>(c, nn));
                cf.viscosity = 0.7;
                if (hist % 3 == 1)
                    cf.sylinderDiameterColRatio = 1.02, cf.sylinderLengthColRatio = 1.1;
                int var = hist % 5;
                for (int k = 0; k < 3; k++)
                    cf.simBoxPBC[k] = hist % 7 == 3;
                auto p = parts(false, false, var);
                auto s = sys::make(cf, p, {{p[0].gid, p[1].gid}, {p[4].gid, p[3].gid}});
                uint64_t h = 5;
                for (int st = 0; st < depth; st++) {
                    int op = ops[st];
                    p = parts(op & 8, op & 16, var);
                    if (mono) // in the plane: side by side in y
                        for (auto &a : p)
                            a.pos[1] = a.pos[2] + 1, a.pos[2] = 4, a.q = sys::dirq(1, 0.05 * (a.gid % 3), 0);
                    sys::setExact(*s, p);
                    s->runConfig.KBT = op & 4 ? 0.05 : 0;
                    s->prepareStep();
                    auto loc = sys::localParticles(*s);
                    int nl = loc.size();
                    std::vector<double> f(6 * nl), v(6 * nl);
                    auto load = [&](int gid, int k) { return 2 * std::sin(1 + 3.1 * k + 1.7 * gid + st); };
                    auto vel = [&](int gid, int k) { return std::cos(2 + 2.3 * k + 1.1 * gid - st); };
                    for (int i = 0; i < nl; i++)
                        for (int k = 0; k < 6; k++)
                            f[6 * i + k] = load(loc[i].gid, k), v[6 * i + k] = vel(loc[i].gid, k);
                    if (op & 1)
                        s->setForceNonBrown(f);
                    if (op & 2)
                        s->setVelocityNonBrown(v);
                    auto pre = sys::particles(*s);
                    s->runStep();
                    auto now = sys::particles(*s);
                    auto bl = sys::blocks(*s);
                    VP_CHECK(pre.size() == now.size(), "particles lost");
                    double brown = 0;
                    long uni = 0, bi = 0;
                    for (size_t i = 0; i < now.size(); i++) {
                        auto &a = now[i], &b = pre[i];
                        double V[6], nb[6], br[6], co[6], bv[6], F[6], fn[6], fc[6], fb[6], w[6];
                        six(a.vel, a.omega, V), six(a.velNonB, a.omegaNonB, nb), six(a.velBrown, a.omegaBrown, br), six(a.velCol, a.omegaCol, co);
                        six(a.velBi, a.omegaBi, bv), six(a.force, a.torque, F), six(a.forceNonB, a.torqueNonB, fn), six(a.forceCol, a.torqueCol, fc);
                        six(a.forceBi, a.torqueBi, fb);
                        for (int k = 0; k < 6; k++)
                            w[k] = nb[k] + br[k] + co[k] + bv[k];
                        VP_CHECK(diff(V, w) < 1e-10, "step %d particle %d: velocity is not the sum of its parts (%g)", st, a.gid, diff(V, w));
                        for (int k = 0; k < 6; k++)
                            w[k] = fn[k] + fc[k] + fb[k];
                        VP_CHECK(diff(F, w) < 1e-10, "step %d particle %d: force is not the sum of its parts (%g)", st, a.gid, diff(F, w));
                        double gf[6], gv[6];
                        for (int k = 0; k < 6; k++)
                            gf[k] = op & 1 ? load(a.gid, k) : 0, gv[k] = op & 2 ? vel(a.gid, k) : 0;
                        VP_CHECK(diff(fn, gf) < 1e-10 || mono, "step %d particle %d: the given force is not stored (%g)", st, a.gid, diff(fn, gf));
                        if (mono)
                            for (int k : {0, 1, 5})
                                VP_CHECK(vp::near(fn[k], gf[k], 1e-10), "step %d particle %d: the given in-plane force is not stored", st, a.gid);
                        mob(b, cf.viscosity, gf, w);
                        for (int k = 0; k < 6; k++)
                            w[k] = mono && (k == 2 || k == 3 || k == 4) ? 0 : w[k] + gv[k];
                        VP_CHECK(diff(nb, w) < 1e-9, "step %d particle %d: non-Brownian velocity is not M f + v (%g)", st, a.gid, diff(nb, w));
                        double zero[6] = {0, 0, 0, 0, 0, 0};
                        if (!(op & 4))
                            VP_CHECK(diff(br, zero) == 0, "step %d particle %d: Brownian velocity %g without temperature", st, a.gid, diff(br, zero));
                        brown = std::max(brown, diff(br, zero));
                        // constraint forces from the blocks
                        double sc[6] = {0, 0, 0, 0, 0, 0}, sb[6] = {0, 0, 0, 0, 0, 0};
                        double mag = 0;
                        for (auto &c : bl) {
                            auto add = [&](const double *n, const double *q) {
                                Evec3 N(n[0], n[1], n[2]), Q(q[0], q[1], q[2]), T = Q.cross(N);
                                double *t = c.bilateral ? sb : sc;
                                for (int k = 0; k < 3; k++)
                                    t[k] += c.gamma * N[k], t[3 + k] += c.gamma * T[k];
                                mag += std::fabs(c.gamma);
                            };
                            if (c.gidI == a.gid)
                                add(c.normI, c.posI);
                            if (!c.oneSide && c.gidJ == a.gid)
                                add(c.normJ, c.posJ);
                        }
                        VP_CHECK(diff(fc, sc) < 1e-7 * (1 + mag), "step %d particle %d: contact force differs from its contacts by %g", st, a.gid, diff(fc, sc));
                        VP_CHECK(diff(fb, sb) < 1e-7 * (1 + mag), "step %d particle %d: link force differs from its links by %g", st, a.gid, diff(fb, sb));
                        mob(b, cf.viscosity, fc, w);
                        VP_CHECK(diff(co, w) < 1e-7, "step %d particle %d: collision velocity is not M f (%g)", st, a.gid, diff(co, w));
                        mob(b, cf.viscosity, fb, w);
                        VP_CHECK(diff(bv, w) < 1e-7, "step %d particle %d: link velocity is not M f (%g)", st, a.gid, diff(bv, w));
                        for (int k = 0; k < 3; k++)
                            VP_CHECK(vp::near(a.pos[k], b.pos[k] + cf.dt * V[k], 1e-10), "step %d particle %d moved by %g, velocity %g", st, a.gid, a.pos[k] - b.pos[k], V[k]);
                        const Evec3 W(V[3], V[4], V[5]);
                        Equatn turn = Equatn::Identity();
                        if (W.norm() > 0)
                            turn = Equatn(Eigen::AngleAxisd(W.norm() * cf.dt, W.normalized()));
                        const double turned = (turn * sys::axis(b.orientation) - sys::axis(a.orientation)).norm();
                        VP_CHECK(turned < 1e-9, "step %d particle %d: the axis is off by %g after turning with angular velocity %g %g %g", st, a.gid, turned, W[0], W[1], W[2]);
                        h = vp::mix(h, vp::rnd(V[0], 1e-4));
                    }
                    for (auto &c : bl)
                        (c.bilateral ? bi : uni)++;
                    VP_CHECK(bi == 2, "%ld link constraints for 2 links", bi);
                    if (op & 4)
                        VP_CHECK(brown > 0, "no Brownian velocity");
                    if (op & 8)
                        VP_CHECK(uni > 0, "no contact");
                    if ((op & 16) && !mono) {
                        long one = 0;
                        for (auto &c : bl)
                            one += c.oneSide && c.gidI == p[5].gid;
                        VP_CHECK(one > 0, "particle %d has no contact with the wall among %zu boundaries", p[5].gid, cf.boundaryPtr.size());
                    }
                    observables(*s, h);
                    vp::count("steps");
                    vp::count("contacts", uni);
                    vp::nontrivial();
                }
                vp::S().transitions += depth;
                vp::S().states++;
                vp::S().traces++;
                vp::outcome(h);
            }
    }
}

int main(int c, char **v) {
    sys::start(c, v);
    logsink::install();
    boxes();
    histories();
    sys::stop();
}
