// C04: boundary contacts.  Particles of all shapes whose end (or centre) sits at given signed distances from boundaries of all types and
// orientations, alone and in lists, on several ranks and threads; reference: analytic signed distance.
#include "sys.hpp"
#include <algorithm>
using sys::Part;

struct Bd { // analytic boundary
    int type; // 0 sphere, 1 wall, 2 tube
    Evec3 c, n;
    double R;
    bool in;
    std::shared_ptr<Boundary> ptr() const {
        double cc[3] = {c[0], c[1], c[2]}, nn[3] = {n[0], n[1], n[2]};
        if (type == 0)
            return std::make_shared<SphereShell>(cc, R, in);
        if (type == 1)
            return std::make_shared<Wall>(cc, nn);
        return std::make_shared<Tube>(cc, nn, R, in);
    }
    // signed distance (positive: allowed side) and unit normal towards the allowed side; sure = false where the normal is not unique
    double dist(const Evec3 &q, Evec3 &nrm, bool &sure) const {
        Evec3 u = n.normalized(), d = q - c;
        sure = true;
        if (type == 1) {
            nrm = u;
            return d.dot(u);
        }
        if (type == 2)
            d -= d.dot(u) * u;
        double r = d.norm();
        sure = r > 1e-7;
        nrm = sure ? Evec3(d / r * (in ? -1 : 1)) : Evec3(0, 0, 0);
        return in ? R - r : r - R;
    }
    // a point at signed distance s, for surface direction t (unit)
    Evec3 at(double s, const Evec3 &t) const {
        Evec3 u = n.normalized();
        if (type == 1) {
            Evec3 e = t - t.dot(u) * u;
            return c + 0.7 * e + s * u;
        }
        Evec3 e = t, off(0, 0, 0);
        if (type == 2) {
            off = 0.9 * t.dot(u) * u;
            e = t - t.dot(u) * u;
            if (e.norm() < 1e-6)
                e = u.unitOrthogonal();
            e.normalize();
        }
        return c + off + e * (in ? R - s : R + s);
    }
};

struct Want {
    Evec3 n, arm, lab;
    double val, s;
    bool sure, must, found = false;
};

static void check(const SylinderConfig &cfg, const std::vector<Bd> &bds, const std::vector<Part> &parts) {
    auto s = sys::make(cfg, parts);
    s->prepareStep();
    s->collectBoundaryCollision();
    auto pp = sys::particles(*s);
    auto bb = sys::blocks(*s);
    std::map<int, std::vector<ConstraintBlock>> byGid;
    for (auto &b : bb)
        byGid[b.gidI].push_back(b);
    VP_CHECK(pp.size() == parts.size(), "%zu particles of %zu", pp.size(), parts.size());
    uint64_t h = 3;
    for (auto &p : pp) {
        Evec3 c = ECmap3(p.pos), ax = sys::axis(p.orientation);
        double rc = p.radius * cfg.sylinderDiameterColRatio, lc = p.length * cfg.sylinderLengthColRatio;
        std::vector<std::pair<Evec3, double>> ends;
        if (lc < 2 * rc)
            ends.push_back({c, rc + 0.5 * lc});
        else {
            ends.push_back({c - 0.5 * lc * ax, rc});
            ends.push_back({c + 0.5 * lc * ax, rc});
        }
        std::vector<Want> want;
        for (auto &bd : bds)
            for (auto &e : ends) {
                if (p.isImmovable)
                    continue; // nothing can push it away
                Want w;
                double d = bd.dist(e.first, w.n, w.sure), thr = (1 + 2 * cfg.sylinderColBuf) * e.second;
                if (d > thr + 1e-9)
                    continue;
                w.must = d < thr - 1e-9;
                w.val = d - e.second;
                w.s = d;
                w.arm = e.first - c;
                w.lab = e.first;
                want.push_back(w);
            }
        auto &have = byGid[p.gid];
        for (auto &b : have) {
            Want *m = nullptr;
            double bestE = 1e300;
            Evec3 bn(b.normI[0], b.normI[1], b.normI[2]), bp(b.posI[0], b.posI[1], b.posI[2]), bl(b.labI[0], b.labI[1], b.labI[2]),
                bj(b.labJ[0], b.labJ[1], b.labJ[2]);
            for (auto &w : want) {
                if (w.found)
                    continue;
                double ne = w.sure ? (bn - w.n).norm() : std::fabs(bn.norm() - 1);
                double e = ne / 1e-5 + (bp - w.arm).norm() / 1e-9 + std::fabs(b.delta0 - w.val) / 1e-9;
                if (!(e >= bestE))
                    bestE = e, m = &w;
            }
            if (!m) {
                vp::fail("particle %d at (%g %g %g) has an extra contact: value %g normal (%g %g %g)", p.gid, c[0], c[1], c[2], b.delta0, bn[0], bn[1], bn[2]);
                continue;
            }
            m->found = true;
            VP_CHECK(std::fabs(b.delta0 - m->val) <= 1e-9, "particle %d: gap %.12g recorded, true gap %.12g", p.gid, b.delta0, m->val);
            if (m->sure)
                VP_CHECK((bn - m->n).norm() <= 1e-5, "particle %d distance %g: normal (%g %g %g) recorded, true normal (%g %g %g)", p.gid, m->s, bn[0], bn[1], bn[2],
                         m->n[0], m->n[1], m->n[2]);
            VP_CHECK(std::fabs(bn.norm() - 1) <= 1e-9, "particle %d: normal of length %g", p.gid, bn.norm());
            VP_CHECK((bp - m->arm).norm() <= 1e-9, "particle %d: arm (%g %g %g), true (%g %g %g)", p.gid, bp[0], bp[1], bp[2], m->arm[0], m->arm[1], m->arm[2]);
            if (m->sure)
                VP_CHECK((bl - m->lab).norm() <= 1e-9 && (bj - (m->lab - m->s * m->n)).norm() <= 1e-5 * (1 + std::fabs(m->s)), "particle %d: contact points (%g %g %g) (%g %g %g)",
                         p.gid, bl[0], bl[1], bl[2], bj[0], bj[1], bj[2]);
            VP_CHECK(b.oneSide && !b.bilateral && b.gidJ == p.gid && b.globalIndexI == p.globalIndex, "particle %d: oneSide %d bilateral %d ids %d %d index %d (particle has %d)",
                     p.gid, b.oneSide, b.bilateral, b.gidI, b.gidJ, b.globalIndexI, p.globalIndex);
            VP_CHECK(b.gamma >= 0, "particle %d: initial guess %g", p.gid, b.gamma);
        }
        for (auto &w : want) {
            VP_CHECK(w.found || !w.must, "particle %d (r %g l %g) at (%g %g %g): no contact for an end at distance %g from the boundary (gap %g)", p.gid, p.radius, p.length, c[0],
                     c[1], c[2], w.s, w.val);
            vp::count(w.s < 0 ? "forbidden" : (w.val < 0 ? "touching" : "near"));
            h = vp::mix(h, vp::rnd(w.val, 1e-6) + p.gid);
        }
    }
    for (auto &b : byGid)
        for (auto &x : b.second)
            VP_CHECK(b.first >= 0 && b.first < (int)parts.size() && x.gidI == b.first, "contact of unknown particle %d", b.first);
    // the constraints stay on the rank that owns the particle
    auto loc = sys::localParticles(*s);
    for (auto &b : sys::localBlocks(*s)) {
        bool own = false;
        for (auto &p : loc)
            own |= p.gid == b.gidI && p.globalIndex == b.globalIndexI;
        VP_CHECK(own, "contact of particle %d sits on another rank", b.gidI);
    }
    vp::outcome(h);
}

int main(int argc, char **argv) {
    sys::start(argc, argv);
    const bool th = vp::S().thorough;
    std::vector<Bd> types = {
        {0, Evec3(4, 4, 4), Evec3(0, 0, 1), 3, true},    {0, Evec3(3, 4.5, 4), Evec3(0, 0, 1), 1, false},
        {1, Evec3(4, 4, 1), Evec3(0, 0, 1), 0, true},    {1, Evec3(4, 4, 7), Evec3(0, 0, -2), 0, true},
        {1, Evec3(2, 3, 4), Evec3(1, -2, 0.5), 0, true}, {2, Evec3(4, 4, 0), Evec3(0, 0, 1), 2.5, true},
        {2, Evec3(4, 4, 4), Evec3(1, 1, 0.5), 1.5, false}, {2, Evec3(3, 4, 4), Evec3(0, 2, 0), 3, true},
        {0, Evec3(4, 4, 4), Evec3(0, 0, 1), 0.75, true},
    };
    std::vector<Evec3> dirs;
    for (int x = -1; x <= 1; x++)
        for (int y = -1; y <= 1; y++)
            for (int z = -1; z <= 1; z++)
                if (x || y || z)
                    dirs.push_back(Evec3(x, y, z).normalized());
    const double shapes[6][2] = {{0.5, 0}, {0.5, 0.6}, {0.5, 0.98}, {0.5, 1}, {0.25, 2}, {0.1, 4}};
    const double ratios[4][3] = {{1, 1, 0.25}, {1.25, 1, 0}, {1, 0.5, 0.05}, {0.8, 1.2, 1}};
    // every boundary x surface direction x axis direction x signed distance; all shapes in one system
    for (size_t ib = 0; ib < types.size(); ib++)
        for (int ir = 0; ir < 4; ir++)
            for (size_t id = 0; id < dirs.size(); id++) {
                if (!vp::begin(vp::fmt("single b%zu r%d d%zu", ib, ir, id)))
                    continue;
                auto cfg = sys::config();
                cfg.sylinderDiameterColRatio = ratios[ir][0];
                cfg.sylinderLengthColRatio = ratios[ir][1];
                cfg.sylinderColBuf = ratios[ir][2];
                cfg.boundaryPtr = {types[ib].ptr()};
                std::vector<Part> parts;
                for (auto &sh : shapes) {
                    double rc = sh[0] * ratios[ir][0], lc = sh[1] * ratios[ir][1];
                    bool sph = lc < 2 * rc;
                    double reff = sph ? rc + 0.5 * lc : rc, thr = (1 + 2 * ratios[ir][2]) * reff;
                    std::vector<double> ss = {-0.4, -1e-3, -1e-12, 0, 1e-12, 1e-3, 0.5 * reff, reff - 1e-4, reff + 1e-4, thr - 1e-6, thr + 1e-6, thr + 0.1};
                    if (types[ib].type != 1 && types[ib].in)
                        ss.push_back(types[ib].R); // centre or axis
                    for (double s : ss)
                        for (size_t ia = (id + ir) % 4; ia < dirs.size(); ia += 4) {
                            Part p;
                            p.gid = parts.size();
                            p.imm = (id + ir + parts.size()) % 11 == 7;
                            p.radius = sh[0];
                            p.length = sh[1];
                            p.q = sys::dirq(dirs[ia][0], dirs[ia][1], dirs[ia][2]);
                            Evec3 ax = p.q * Evec3(0, 0, 1);
                            Evec3 e = types[ib].at(s, dirs[id]);
                            p.pos = sph ? e : Evec3(e + (parts.size() % 2 ? 0.5 : -0.5) * lc * ax);
                            parts.push_back(p);
                        }
                }
                vp::nontrivial();
                check(cfg, {types[ib]}, parts);
            }
    // every list of up to three boundaries: order, repetition, empty lists and systems with fewer particles than ranks
    const int nt = 6;
    for (int k = 0; k <= 3; k++) {
        int tot = 1;
        for (int i = 0; i < k; i++)
            tot *= nt;
        for (int x = 0; x < tot; x += (k == 3 && !th) ? 5 : 1)
            for (int few = 0; few < 2; few++) {
                if (!vp::begin(vp::fmt("list k%d %d few%d", k, x, few)))
                    continue;
                auto cfg = sys::config();
                cfg.sylinderColBuf = 0.5;
                std::vector<Bd> b;
                for (int i = 0, t = x; i < k; i++, t /= nt)
                    b.push_back(types[t % nt]), cfg.boundaryPtr.push_back(b.back().ptr());
                std::vector<Part> parts;
                int i = 0;
                for (double px = 0.6; px < 8; px += few ? 9 : 1.3)
                    for (double py = 0.4; py < 8; py += few ? 5 : 1.7)
                        for (double pz = 0.3; pz < 8; pz += few ? 9 : 1.9, i++) {
                            Part p;
                            p.gid = i;
                            p.radius = shapes[(i * 5 + x) % 6][0];
                            p.length = shapes[(i * 5 + x) % 6][1];
                            p.pos = Evec3(px, py, pz);
                            p.imm = i % 7 == 3;
                            auto &d = dirs[(i * 7 + x) % dirs.size()];
                            p.q = sys::dirq(d[0], d[1], d[2]);
                            parts.push_back(p);
                        }
                if (k)
                    vp::nontrivial();
                check(cfg, b, parts);
            }
    }
    sys::stop();
}
