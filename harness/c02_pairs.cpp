// C02: every contact pair is collected exactly once, none is invented.
// Enumerates particle sets (families below) x periodicity x shape ratios; compares the collected blocks of all ranks and threads
// with a complete enumeration of all pairs and periodic images.
#include "sys.hpp"
using namespace sys;

struct Key {
    int i, j, n[3];
    bool operator<(const Key &o) const {
        return std::tie(i, j, n[0], n[1], n[2]) < std::tie(o.i, o.j, o.n[0], o.n[1], o.n[2]);
    }
};
struct Geo {
    int gid, gi;
    Evec3 c, d;
    double L, R, buf;
    bool sph, imm = false;
};

static void checkAll(SylinderSystem &s, const SylinderConfig &cf, size_t n) {
    auto ps = particles(s);
    VP_CHECK(ps.size() == n, "%zu particles instead of %zu", ps.size(), n);
    auto bl = blocks(s);
    std::map<int, Geo> g;
    double maxR = 0;
    for (auto &p : ps) {
        Geo a{p.gid, p.globalIndex, ECmap3(p.pos), axis(p.orientation), p.lengthCollision, p.radiusCollision, p.colBuf, false};
        a.sph = a.L < 2 * a.R;
        a.imm = p.isImmovable;
        if (a.sph) {
            a.R = a.R + 0.5 * a.L;
            a.L = 0;
        }
        g[a.gid] = a;
        maxR = std::max(maxR, a.L / 2 + a.R * (1 + a.buf));
    }
    double box[3];
    for (int k = 0; k < 3; k++)
        box[k] = cf.simBoxHigh[k] - cf.simBoxLow[k];
    std::map<Key, int> seen;
    uint64_t h = 1469598103934665603ull;
    for (auto &b : bl) {
        auto a = g.find(b.gidI), c = g.find(b.gidJ);
        if (a == g.end() || c == g.end()) {
            vp::fail("block with unknown ids %d %d", b.gidI, b.gidJ);
            continue;
        }
        const Geo &I = a->second, &J = c->second;
        VP_CHECK(b.globalIndexI == I.gi && b.globalIndexJ == J.gi, "block %d-%d has global indices %d %d, expected %d %d",
                 b.gidI, b.gidJ, b.globalIndexI, b.globalIndexJ, I.gi, J.gi);
        VP_CHECK(!b.oneSide && !b.bilateral && b.kappa == 0 && b.gammaLB == 0, "block %d-%d has wrong flags", b.gidI, b.gidJ);
        Evec3 pI = ECmap3(b.posI), pJ = ECmap3(b.posJ), lI = ECmap3(b.labI), lJ = ECmap3(b.labJ), nI = ECmap3(b.normI),
              nJ = ECmap3(b.normJ);
        Evec3 cI = lI - pI, cJ = lJ - pJ; // centres of the images in contact
        Evec3 dI = cI - I.c, dJ = cJ - J.c;
        Key k;
        bool ok = true;
        int m[3];
        for (int d = 0; d < 3; d++) {
            double x = dI[d] / box[d], y = dJ[d] / box[d];
            if (!(std::fabs(x - std::round(x)) < 1e-9 && std::fabs(y - std::round(y)) < 1e-9))
                ok = false;
            if (!cf.simBoxPBC[d] && (std::lround(x) != 0 || std::lround(y) != 0))
                ok = false;
            m[d] = (int)(std::lround(y) - std::lround(x));
        }
        VP_CHECK(ok, "block %d-%d: contact points are not relative to an image of the particle centres (%g %g %g) (%g %g %g)",
                 b.gidI, b.gidJ, dI[0], dI[1], dI[2], dJ[0], dJ[1], dJ[2]);
        bool sw = b.gidI > b.gidJ;
        k.i = std::min(b.gidI, b.gidJ);
        k.j = std::max(b.gidI, b.gidJ);
        for (int d = 0; d < 3; d++)
            k.n[d] = sw ? -m[d] : m[d];
        seen[k]++;
        // geometry of the block
        Evec3 sh(m[0] * box[0], m[1] * box[1], m[2] * box[2]);
        Evec3 hI = 0.5 * I.L * I.d, hJ = 0.5 * J.L * J.d;
        Evec3 Jc = J.c + sh;
        double dist = distSS(I.c - hI, I.c + hI, Jc - hJ, Jc + hJ);
        double sep = dist - I.R - J.R;
        VP_CHECK(vp::near(b.delta0, sep, 1e-8), "block %d-%d separation %.12g, true one %.12g", b.gidI, b.gidJ, b.delta0, sep);
        VP_CHECK(distPS(I.c + pI, I.c - hI, I.c + hI) < 1e-8, "block %d-%d contact point I is not on body I", b.gidI, b.gidJ);
        VP_CHECK(distPS(J.c + pJ, J.c - hJ, J.c + hJ) < 1e-8, "block %d-%d contact point J is not on body J", b.gidI, b.gidJ);
        VP_CHECK(vp::near((lI - lJ).norm(), dist, 1e-8), "block %d-%d contact points have distance %g instead of %g", b.gidI,
                 b.gidJ, (lI - lJ).norm(), dist);
        VP_CHECK((nI + nJ).norm() < 1e-9, "block %d-%d normals are not opposite", b.gidI, b.gidJ);
        if (dist > 1e-6) {
            VP_CHECK(vp::near(nI.norm(), 1, 1e-9), "block %d-%d normal is not a unit vector", b.gidI, b.gidJ);
            VP_CHECK((nI - (lI - lJ) / dist).norm() < 1e-5, "block %d-%d normal I does not point from J to I", b.gidI, b.gidJ);
        }
        VP_CHECK(b.gamma >= 0 && std::isfinite(b.gamma), "block %d-%d initial guess %g", b.gidI, b.gidJ, b.gamma);
    }
    // complete reference
    int N[3];
    for (int d = 0; d < 3; d++)
        N[d] = cf.simBoxPBC[d] ? (int)std::ceil((2 * maxR) / box[d]) + 1 : 0;
    int expected = 0;
    for (auto &A : g)
        for (auto &B : g) {
            if (A.first >= B.first)
                continue;
            const Geo &I = A.second, &J = B.second;
            double thr = I.R * I.buf + J.R * J.buf;
            Evec3 hI = 0.5 * I.L * I.d, hJ = 0.5 * J.L * J.d;
            for (int x = -N[0]; x <= N[0]; x++)
                for (int y = -N[1]; y <= N[1]; y++)
                    for (int z = -N[2]; z <= N[2]; z++) {
                        Evec3 Jc = J.c + Evec3(x * box[0], y * box[1], z * box[2]);
                        if ((Jc - I.c).norm() > I.L / 2 + J.L / 2 + I.R + J.R + thr + 1e-6)
                            continue;
                        double sep = distSS(I.c - hI, I.c + hI, Jc - hJ, Jc + hJ) - I.R - J.R;
                        Key k{A.first, B.first, {x, y, z}};
                        auto it = seen.find(k);
                        int cnt = it == seen.end() ? 0 : it->second;
                        if (it != seen.end())
                            seen.erase(it);
                        if (std::fabs(sep - thr) < 1e-9) {
                            VP_CHECK(cnt <= (I.imm && J.imm ? 0 : 1), "pair %d-%d image %d,%d,%d collected %d times", k.i, k.j, x, y, z, cnt);
                            continue;
                        }
                        bool want = sep < thr && !(I.imm && J.imm);
                        expected += want;
                        VP_CHECK(cnt == (want ? 1 : 0),
                                 "pair %d-%d image (%d,%d,%d) separation %g threshold %g collected %d times, expected %d", k.i, k.j,
                                 x, y, z, sep, thr, cnt, want ? 1 : 0);
                        if (want) {
                            h = vp::mix(h, (uint64_t)k.i * 1000003u + k.j);
                            h = vp::mix(h, (uint64_t)((x + 8) * 289 + (y + 8) * 17 + z + 8));
                        }
                    }
        }
    for (auto &k : seen)
        vp::fail("pair %d-%d image (%d,%d,%d) collected but it is not close", k.first.i, k.first.j, k.first.n[0], k.first.n[1],
                 k.first.n[2]);
    if (expected) {
        vp::nontrivial();
        vp::outcome(h);
    }
    vp::count("pairs_collected", expected);
}

struct Shape {
    double r, L;
};
static void run(SylinderSystem &s, const SylinderConfig &cf, const std::vector<Part> &p) {
    s.runConfig.sylinderColBuf = cf.sylinderColBuf;
    s.runConfig.sylinderDiameterColRatio = cf.sylinderDiameterColRatio;
    s.runConfig.sylinderLengthColRatio = cf.sylinderLengthColRatio;
    setExact(s, p);
    s.prepareStep();
    s.collectPairCollision();
    checkAll(s, cf, p.size());
}

// deterministic, well spread enumeration
static double frac(double x) { return x - std::floor(x); }

static void body() {
    const bool th = vp::S().thorough;
    const double ratios[][2] = {{1, 1}, {1.5, 1}, {1, 1.5}, {2, 0.5}, {0.75, 1.25}};
    const Shape shapes[] = {{0.5, 0}, {0.5, 0.5}, {0.25, 0.5}, {0.25, 1.5}, {0.2, 2.5}};
    const double dirs[][3] = {{0, 0, 1}, {1, 0, 0}, {1, 2, 0}, {-1, 1, 3}};
    // family 1: two particles, all ordered shape pairs, corner/edge/face/centre placement, displacement lattice, all periodicities
    for (int pb = 0; pb < 8; pb++) {
        SylinderConfig cf = config();
        double hi[3] = {7, 6, 8};
        double lo[3] = {-1, 0, 1};
        for (int k = 0; k < 3; k++) {
            cf.simBoxPBC[k] = pb >> k & 1;
            cf.simBoxLow[k] = lo[k];
            cf.simBoxHigh[k] = lo[k] + hi[k];
        }
        std::vector<Part> p0(2);
        for (int i = 0; i < 2; i++) {
            p0[i].gid = i ? 7 : 3;
            p0[i].pos = Evec3(1 + i, 2, 3);
        }
        auto s = make(cf, p0);
        for (int a = 0; a < 5; a++)
            for (int b = 0; b < 5; b++)
                for (int ir = 0; ir < (th ? 5 : 3); ir++)
                    for (int pl = 0; pl < 3; pl++)
                        for (int di = 0; di < (th ? 26 : 7); di++) {
                            static const int D[26][3] = {{1, 0, 0},   {0, 1, 0},  {0, 0, 1},   {-1, -1, 0}, {1, 0, 1},  {0, 1, -1}, {1, 1, 1},
                                                         {-1, 0, 0},  {0, -1, 0}, {0, 0, -1},  {1, 1, 0},   {-1, 0, 1}, {0, 1, 1},  {1, -1, 0},
                                                         {-1, 1, 0},  {1, 0, -1}, {-1, 0, -1}, {0, -1, 1},  {0, -1, -1}, {-1, 1, 1}, {1, -1, 1},
                                                         {1, 1, -1},  {-1, -1, 1}, {-1, 1, -1}, {1, -1, -1}, {-1, -1, -1}};
                            char key[128];
                            snprintf(key, sizeof key, "pair pbc%d s%d%d r%d pl%d d%d", pb, a, b, ir, pl, di);
                            if (!vp::begin(key))
                                continue;
                            cf.sylinderDiameterColRatio = ratios[ir][0];
                            cf.sylinderLengthColRatio = ratios[ir][1];
                            int shift = a + 2 * b + di;
                            std::vector<Part> p(2);
                            Evec3 base;
                            for (int k = 0; k < 3; k++)
                                base[k] = pl == 0 ? cf.simBoxLow[k] + 0.01 * (k + 1)
                                                  : (pl == 1 ? cf.simBoxHigh[k] - 0.02 * (k + 1) : 0.5 * (cf.simBoxLow[k] + cf.simBoxHigh[k]) + 0.003);
                            for (int i = 0; i < 2; i++) {
                                int sh = i ? b : a;
                                p[i].imm = (a + 2 * b + di + pl + pb) % 6 == 3 || (a + b + di + pl) % 4 == (i ? 2 : 3);
                                p[i].gid = i == (pb & 1) ? 7 : 3;
                                p[i].radius = shapes[sh].r;
                                p[i].length = shapes[sh].L;
                                auto &d = dirs[(shift + i * (1 + pl)) % 4];
                                p[i].q = dirq(d[0], d[1], d[2]);
                            }
                            // distance between just touching and the buffer limit, alternately a bit beyond
                            Evec3 u = Evec3(D[di][0], D[di][1], D[di][2]).normalized();
                            p[0].pos = base;
                            auto eff = [&](const Part &q, double &L, double &R) {
                                L = q.length * cf.sylinderLengthColRatio;
                                R = q.radius * cf.sylinderDiameterColRatio;
                                if (L < 2 * R) {
                                    R += L / 2;
                                    L = 0;
                                }
                            };
                            double L0, R0, L1, R1;
                            eff(p[0], L0, R0);
                            eff(p[1], L1, R1);
                            // largest centre distance along u that is still within the threshold, by bisection on the reference
                            double thr = cf.sylinderColBuf * (R0 + R1);
                            Evec3 h0 = 0.5 * L0 * (p[0].q * Evec3(0, 0, 1)), h1 = 0.5 * L1 * (p[1].q * Evec3(0, 0, 1));
                            double lo_ = 0, hi_ = L0 + L1 + R0 + R1 + thr + 1;
                            for (int it = 0; it < 60; it++) {
                                double m = 0.5 * (lo_ + hi_);
                                Evec3 c = m * u;
                                if (distSS(-h0, h0, c - h1, c + h1) - R0 - R1 < thr)
                                    lo_ = m;
                                else
                                    hi_ = m;
                            }
                            static const double off[4] = {-1e-4, -0.3, 1e-4, -0.05};
                            p[1].pos = base + u * std::max(0.05, lo_ + off[(di + a + b) % 4]);
                            run(*s, cf, p);
                        }
    }
    // family 2: crowds (deep trees), every periodicity, several sizes, shape mixes and boxes smaller than the longest particle
    const int sizes[] = {3, 9, 40, 150};
    for (int pb = 0; pb < 8; pb++)
        for (int is = 0; is < 4; is++)
            for (int mix = 0; mix < 4; mix++)
                for (int ir = 0; ir < 5; ir++)
                    for (int bx = 0; bx < 2; bx++) {
                        if (!th && is == 3 && (ir + mix + pb) % 3)
                            continue;
                        char key[128];
                        snprintf(key, sizeof key, "crowd pbc%d n%d mix%d r%d box%d", pb, sizes[is], mix, ir, bx);
                        if (!vp::begin(key))
                            continue;
                        SylinderConfig cf = config();
                        double side = bx ? 3.2 : 1.1 * std::cbrt((double)sizes[is]) + 2;
                        if (bx && is == 3)
                            continue;
                        for (int k = 0; k < 3; k++) {
                            cf.simBoxPBC[k] = pb >> k & 1;
                            cf.simBoxLow[k] = -2 + k;
                            cf.simBoxHigh[k] = cf.simBoxLow[k] + side * (1 + 0.25 * k);
                        }
                        cf.sylinderDiameterColRatio = ratios[ir][0];
                        cf.sylinderLengthColRatio = ratios[ir][1];
                        cf.sylinderColBuf = mix == 3 ? 0.0 : 0.3;
                        std::vector<Part> p(sizes[is]);
                        for (int i = 0; i < sizes[is]; i++) {
                            int sh = mix == 0 ? i % 5 : (mix == 1 ? 0 : (mix == 2 ? 4 * (i % 9 == 0) : 3));
                            p[i].gid = (i * 7 + 3) % 1009;
                            p[i].imm = (mix + ir) % 3 == 1 ? i % 3 == 0 : ((mix + ir) % 3 == 2 && i % 2);
                            p[i].radius = shapes[sh].r;
                            p[i].length = shapes[sh].L;
                            auto &d = dirs[i % 4];
                            p[i].q = dirq(d[0], d[1] + 0.1 * (i % 3), d[2]);
                            double f[3] = {frac(0.5 + i * 0.754877666), frac(0.5 + i * 0.569840290), frac(0.25 + i * 0.33)};
                            for (int k = 0; k < 3; k++) {
                                double m = cf.simBoxPBC[k] ? 0 : 0.15; // open directions: some particles outside the box
                                p[i].pos[k] = cf.simBoxLow[k] + (cf.simBoxHigh[k] - cf.simBoxLow[k]) * (f[k] * (1 + 2 * m) - m);
                            }
                        }
                        auto s = make(cf, p);
                        run(*s, cf, p);
                        // a second collection after the particles moved, in the same system (new decomposition is not done)
                        for (auto &a : p)
                            for (int k = 0; k < 3; k++)
                                a.pos[k] += 0.37 * ((a.gid + k) % 3 - 1);
                        run(*s, cf, p);
                    }
}

// family 3: particles exactly on the faces, edges and corners of boxes whose edge lengths are rounded
static void faces() {
    const double box[][2] = {{0, 8}, {0.1, 8.3}, {-3, 4.1}, {-7.7, -1.1}, {100.1, 107.3}, {-0.7, 6 + 1.0 / 3}};
    for (int ib = 0; ib < 6; ib++)
        for (int pb = 0; pb < 8; pb++) {
            SylinderConfig cf = config();
            for (int k = 0; k < 3; k++) {
                const double *b = box[(ib + (k == 1)) % 6];
                cf.simBoxPBC[k] = pb >> k & 1;
                cf.simBoxLow[k] = b[0];
                cf.simBoxHigh[k] = b[1];
            }
            std::unique_ptr<SylinderSystem> s;
            for (int f = 0; f < 125; f++)
                for (int d = 0; d < 4; d++) {
                    if (!vp::S().thorough && (f + d + pb) % 2)
                        continue;
                    if (!vp::begin(vp::fmt("face box%d pbc%d f%d d%d", ib, pb, f, d)))
                        continue;
                    std::vector<Part> p(3);
                    const double u[4][3] = {{-0.31, 0.2, 0.27}, {0.4, 0.05, -0.2}, {0.02, -0.45, 0}, {-0.2, -0.2, -0.4}};
                    int r = f;
                    for (int k = 0; k < 3; k++, r /= 5) {
                        double lo = cf.simBoxLow[k], hi = cf.simBoxHigh[k], L = hi - lo;
                        double c = r % 5 == 0 ? lo : r % 5 == 1 ? std::nextafter(hi, -1e300) : r % 5 == 2 ? std::nextafter(lo, 1e300) : r % 5 == 3 ? hi - 1e-12 : lo + 0.4 * L;
                        p[0].pos[k] = c;
                        p[1].pos[k] = c + u[d][k];
                        p[2].pos[k] = c - 1.9 * u[(d + 1) % 4][k];
                        for (int i = 1; i < 3; i++)
                            if (cf.simBoxPBC[k]) {
                                if (p[i].pos[k] >= hi)
                                    p[i].pos[k] -= L;
                                if (p[i].pos[k] < lo)
                                    p[i].pos[k] += L;
                            }
                    }
                    for (int i = 0; i < 3; i++) {
                        p[i].gid = (i + d) % 3;
                        p[i].radius = i == 1 ? 0.2 : 0.25;
                        p[i].length = i == 2 ? 0.8 : 0.1;
                        p[i].q = dirq(1, i, -0.5);
                    }
                    if (!s)
                        s = make(cf, p);
                    run(*s, cf, p);
                }
        }
}

int main(int c, char **v) {
    start(c, v);
    body();
    faces();
    stop();
}
