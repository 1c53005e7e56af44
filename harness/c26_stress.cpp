// C26: stress of contacts and links = virial of the contact forces + torque contribution through the inertia tensors; sums count each
// two-sided block once.
#include "sys.hpp"
#include <spdlog/sinks/base_sink.h>
using namespace sys;

// second moment tensor N = int x x^T and inertia tensor of a solid spherocylinder (unit density), from the integrals of its parts
struct Body {
    Emat3 N, Ginv;
};
static Body body(double r, double h, const Evec3 &d) {
    const double P = M_PI;
    double xx = P * pow(r, 4) * h / 4 + 4 * P * pow(r, 5) / 15;
    double zz = P * r * r * h * h * h / 12 + 4 * P * pow(r, 5) / 15 + h * P * pow(r, 4) / 2 + h * h * P * r * r * r / 3;
    Body b;
    Emat3 dd = d * d.transpose(), I = Emat3::Identity();
    b.N = xx * (I - dd) + zz * dd;
    b.Ginv = (I - dd) / (xx + zz) + dd / (2 * xx);
    return b;
}
static Emat3 torquePart(const Body &b, const Evec3 &tau) {
    Evec3 a = b.Ginv * tau;
    Emat3 W;
    W << 0, -a[2], a[1], a[2], 0, -a[0], -a[1], a[0], 0;
    return b.N * W.transpose();
}
static Emat3 oracle(double rI, double hI, const Evec3 &dI, double rJ, double hJ, const Evec3 &dJ, const Evec3 &cI, const Evec3 &cJ,
                    const Evec3 &p, const Evec3 &q) {
    Evec3 F = (q - p).normalized();
    Emat3 S = (cJ - cI) * F.transpose();
    S += torquePart(body(rI, hI, dI), (p - cI).cross(-F)) + torquePart(body(rJ, hJ, dJ), (q - cJ).cross(F));
    return S;
}
static Emat3 stressOf(const ConstraintBlock &b) {
    Emat3 s;
    for (int i = 0; i < 9; i++)
        s(i / 3, i % 3) = b.stress[i];
    return s;
}
struct Shape {
    double r, L;
};
static void eff(double &r, double &L) { // bodies with length < diameter collide as spheres
    if (L < 2 * r) {
        r += 0.5 * L;
        L = 0;
    }
}
static uint64_t hashM(const Emat3 &m) {
    uint64_t h = 17;
    for (int i = 0; i < 9; i++)
        h = vp::mix(h, (uint64_t)vp::rnd(m(i / 3, i % 3), 1e-6));
    return h;
}

static SylinderNearEP ep(int gid, const Shape &s, const Evec3 &c, const Evec3 &d) {
    SylinderNearEP e;
    memset(&e, 0, sizeof e);
    e.gid = gid;
    e.globalIndex = gid * 3 + 1;
    // the physical size differs from the collision size: the stress must use the latter
    e.radius = s.r * 0.7;
    e.length = s.L * 0.6;
    e.radiusCollision = s.r;
    e.lengthCollision = s.L;
    e.colBuf = 50; // every pair is close
    Emap3(e.pos) = c;
    Emap3(e.direction) = d;
    return e;
}
static std::vector<ConstraintBlock> contact(const std::vector<SylinderNearEP> &a, const std::vector<SylinderNearEP> &b) {
    auto pool = std::make_shared<ConstraintBlockPool>();
    pool->resize(omp_get_max_threads());
    CalcSylinderNearForce f(pool);
    std::vector<ForceNear> fn(a.size());
    f(a.data(), a.size(), b.data(), b.size(), fn.data());
    std::vector<ConstraintBlock> v;
    for (auto &q : *pool)
        v.insert(v.end(), q.begin(), q.end());
    return v;
}

static void direct() {
    const bool th = vp::S().thorough;
    const Shape sh[] = {{0.5, 0}, {0.5, 0.6}, {0.25, 0.5}, {0.25, 1.5}, {0.1, 4}, {1, 2.5}};
    std::vector<Evec3> dirs;
    for (int x = -1; x <= 1; x++)
        for (int y = -1; y <= 1; y++)
            for (int z = 0; z <= 1; z++)
                if (x || y || z)
                    dirs.push_back(Evec3(x, y, z).normalized());
    std::vector<Evec3> sep;
    for (int x = -2; x <= 2; x++)
        for (int y = -2; y <= 2; y++)
            for (int z = -2; z <= 2; z++)
                if (x || y || z)
                    sep.push_back(Evec3(0.71 * x, 0.63 * y + 0.01, 0.83 * z - 0.02));
    Emat3 rot;
    rot = Equatn(0.4, 0.2, -0.7, 0.55).normalized().toRotationMatrix();
    for (int a = 0; a < 6; a++)
        for (int b = 0; b < 6; b++)
            for (size_t da = 0; da < dirs.size(); da += (th ? 1 : 2))
                for (size_t db = 0; db < dirs.size(); db += (th ? 1 : 3))
                    for (size_t si = (da + db) % 3; si < sep.size(); si += (th ? 1 : 3)) {
                        char key[96];
                        snprintf(key, sizeof key, "pair s%d%d d%zu,%zu r%zu", a, b, da, db, si);
                        if (!vp::begin(key))
                            continue;
                        Evec3 t(3.5, -20.25, 7.0);
                        Evec3 c = sep[si];
                        Emat3 S[4];
                        for (int v = 0; v < 4; v++) { // as is, ids exchanged, translated, rotated
                            Evec3 c0(0.1, 0.2, -0.3), c1 = c0 + c, d0 = dirs[da], d1 = dirs[db];
                            if (v == 2)
                                c0 += t, c1 += t;
                            if (v == 3)
                                c0 = rot * c0, c1 = rot * c1, d0 = rot * d0, d1 = rot * d1;
                            int g0 = v == 1 ? 9 : 4, g1 = v == 1 ? 4 : 9;
                            std::vector<SylinderNearEP> e{ep(g0, sh[a], c0, d0), ep(g1, sh[b], c1, d1)};
                            auto bl = contact(e, e);
                            if (bl.size() != 1) {
                                vp::fail("%zu blocks for one pair", bl.size());
                                continue;
                            }
                            auto &k = bl[0];
                            bool sw = v == 1;
                            double r0 = sh[a].r, L0 = sh[a].L, r1 = sh[b].r, L1 = sh[b].L;
                            eff(r0, L0);
                            eff(r1, L1);
                            Evec3 p = ECmap3(sw ? k.labJ : k.labI), q = ECmap3(sw ? k.labI : k.labJ);
                            S[v] = stressOf(k);
                            if ((p - q).norm() < 1e-6)
                                continue; // no direction
                            Emat3 O = oracle(r0, L0, d0, r1, L1, d1, c0, c1, p, q);
                            VP_CHECK((S[v] - O).norm() <= 1e-8 * (1 + O.norm()), "variant %d: stress differs from the formula by %g (norm %g)", v,
                                     (S[v] - O).norm(), O.norm());
                            if (L0 == 0 && L1 == 0)
                                VP_CHECK((S[v] - (c1 - c0) * (c1 - c0).transpose() / (c1 - c0).norm()).norm() < 1e-9,
                                         "spheres: stress is not the centre to centre dyad");
                            if (v == 0) {
                                vp::nontrivial();
                                vp::outcome(hashM(O));
                            }
                        }
                    }
}

static void sums() {
    const bool th = vp::S().thorough;
    const int nmax = th ? 5 : 4;
    for (int nq = 1; nq <= 4; nq++)
        for (int n = 0; n <= nmax; n++) {
            int tot = 1, totq = 1;
            for (int i = 0; i < n; i++)
                tot *= 4, totq *= nq;
            if (nq == 4 && n == nmax && !th)
                continue;
            for (int f = 0; f < tot; f++)
                for (int d = 0; d < totq; d++) {
                    char key[96];
                    snprintf(key, sizeof key, "sum queues%d blocks%d flags%d place%d", nq, n, f, d);
                    if (!vp::begin(key))
                        continue;
                    ConstraintCollector col;
                    col.constraintPoolPtr->assign(nq, ConstraintBlockQue());
                    Emat3 U[2] = {Emat3::Zero(), Emat3::Zero()}, B[2] = {Emat3::Zero(), Emat3::Zero()};
                    for (int i = 0, ff = f, dd = d; i < n; i++, ff /= 4, dd /= nq) {
                        ConstraintBlock b;
                        b.oneSide = ff & 1;
                        b.bilateral = ff >> 1 & 1;
                        b.gamma = 2 + i;
                        Emat3 s;
                        for (int k = 0; k < 9; k++)
                            b.stress[k] = s(k / 3, k % 3) = (1 << (3 * i)) * (1 + 0.125 * k);
                        for (int w = 0; w < 2; w++)
                            if (w || !b.oneSide)
                                (b.bilateral ? B : U)[w] += s;
                        (*col.constraintPoolPtr)[dd % nq].push_back(b);
                    }
                    for (int w = 0; w < 2; w++) {
                        Emat3 u = Emat3::Constant(77), bi = Emat3::Constant(-5);
                        col.sumLocalConstraintStress(u, bi, w);
                        VP_CHECK((u - U[w]).norm() < 1e-9 * (1 + U[w].norm()), "contact stress sum wrong (one sided %s)", w ? "included" : "excluded");
                        VP_CHECK((bi - B[w]).norm() < 1e-9 * (1 + B[w].norm()), "link stress sum wrong (one sided %s)", w ? "included" : "excluded");
                    }
                    if (n) {
                        vp::nontrivial();
                        vp::outcome(hashM(U[0] + 3 * B[0]));
                    }
                }
        }
}

// capture of the summary lines
static std::vector<std::string> lines;
class Sink : public spdlog::sinks::base_sink<std::mutex> {
    void sink_it_(const spdlog::details::log_msg &m) override { lines.push_back(std::string(m.payload.data(), m.payload.size())); }
    void flush_() override {}
};
static bool parse(const char *tag, double v[9]) {
    for (auto it = lines.rbegin(); it != lines.rend(); ++it) {
        size_t p = it->find(tag);
        if (p == std::string::npos)
            continue;
        const char *c = it->c_str() + p + strlen(tag);
        for (int i = 0; i < 9; i++) {
            if (*c != ',')
                return false;
            v[i] = strtod(c + 1, (char **)&c);
        }
        return true;
    }
    return false;
}

static double frac(double x) { return x - std::floor(x); }
static void systems() {
    const bool th = vp::S().thorough;
    auto lg = std::make_shared<spdlog::logger>("vp", std::make_shared<Sink>());
    const Shape sh[] = {{0.5, 0}, {0.3, 0.4}, {0.25, 1.5}, {0.2, 2.5}};
    for (int pb = 0; pb < 8; pb++)
        for (int is = 0; is < 3; is++)
            for (int lk = 0; lk < 2; lk++)
                for (int bd = 0; bd < 2; bd++) {
                    if (!th && (pb + is + lk) % 2)
                        continue;
                    char key[96];
                    snprintf(key, sizeof key, "system pbc%d n%d link%d wall%d", pb, is, lk, bd);
                    if (!vp::begin(key))
                        continue;
                    int n = is == 0 ? 3 : (is == 1 ? 9 : 30);
                    SylinderConfig cf = config();
                    cf.conResTol = 1e-7;
                    double side = 1.0 * std::cbrt((double)n) + 1.5;
                    for (int k = 0; k < 3; k++) {
                        cf.simBoxPBC[k] = pb >> k & 1;
                        cf.simBoxLow[k] = -1.5 + k;
                        cf.simBoxHigh[k] = cf.simBoxLow[k] + side * (1 + 0.1 * k);
                    }
                    if (bd) {
                        double c[3] = {0, 0, cf.simBoxLow[2] + 0.3}, nn[3] = {0, 0, 1};
                        cf.boundaryPtr.push_back(std::make_shared<Wall>(c, nn));
                    }
                    std::vector<Part> p(n);
                    std::vector<Link> l;
                    for (int i = 0; i < n; i++) {
                        p[i].gid = (i * 7 + 5) % 101;
                        p[i].radius = sh[(i + is) % 4].r;
                        p[i].length = sh[(i + is) % 4].L;
                        p[i].q = dirq(1 + i % 3, -1 + i % 4, 1 + 0.3 * (i % 5));
                        double f[3] = {frac(0.5 + i * 0.754877666), frac(0.5 + i * 0.569840290), frac(0.25 + i * 0.33)};
                        for (int k = 0; k < 3; k++)
                            p[i].pos[k] = cf.simBoxLow[k] + (cf.simBoxHigh[k] - cf.simBoxLow[k]) * f[k];
                        if (lk && i % 2)
                            l.push_back(Link{p[i - 1].gid, p[i].gid});
                    }
                    auto s = make(cf, p, l);
                    s->prepareStep();
                    auto ps = particles(*s);
                    s->runConfig.dt = 0.005;
                    s->runStep();
                    auto bl = blocks(*s);
                    std::map<int, Sylinder> m;
                    for (auto &a : ps)
                        m[a.gid] = a;
                    Emat3 U = Emat3::Zero(), B = Emat3::Zero();
                    int cnt = 0;
                    for (auto &b : bl) {
                        if (b.oneSide)
                            continue;
                        auto &I = m[b.gidI], &J = m[b.gidJ];
                        double r0 = b.bilateral ? I.radius : I.radiusCollision, L0 = b.bilateral ? I.length : I.lengthCollision;
                        double r1 = b.bilateral ? J.radius : J.radiusCollision, L1 = b.bilateral ? J.length : J.lengthCollision;
                        if (!b.bilateral) {
                            eff(r0, L0);
                            eff(r1, L1);
                        }
                        Evec3 P = ECmap3(b.labI), Q = ECmap3(b.labJ);
                        if ((P - Q).norm() < 1e-6)
                            continue;
                        Emat3 O = b.gamma * oracle(r0, L0, axis(I.orientation), r1, L1, axis(J.orientation), P - ECmap3(b.posI),
                                                   Q - ECmap3(b.posJ), P, Q);
                        VP_CHECK((stressOf(b) - O).norm() < 1e-7 * (1 + O.norm()), "%s %d-%d: stress differs from force times formula by %g",
                                 b.bilateral ? "link" : "contact", b.gidI, b.gidJ, (stressOf(b) - O).norm());
                        (b.bilateral ? B : U) += O;
                        cnt++;
                    }
                    // the summary line
                    auto old = spdlog::default_logger();
                    lines.clear();
                    spdlog::set_default_logger(lg);
                    lg->set_level(spdlog::level::info);
                    s->runConfig.logLevel = spdlog::level::info;
                    s->runConfig.KBT = 0.5;
                    s->calcConStress();
                    spdlog::set_default_logger(old);
                    s->runConfig.KBT = 0;
                    if (rank == 0) {
                        double u[9], b[9];
                        bool ok = parse("ColXF", u) && parse("BiXF", b);
                        VP_CHECK(ok, "stress summary is not reported");
                        double sc = 1 / (n * 0.5);
                        double tol = 1e-4 * sc * (U.norm() + B.norm()) + 1e-9;
                        for (int k = 0; ok && k < 9; k++) {
                            VP_CHECK(vp::near(u[k], sc * U(k / 3, k % 3), tol), "reported contact stress %d is %g instead of %g", k, u[k], sc * U(k / 3, k % 3));
                            VP_CHECK(vp::near(b[k], sc * B(k / 3, k % 3), tol), "reported link stress %d is %g instead of %g", k, b[k], sc * B(k / 3, k % 3));
                        }
                    }
                    vp::count("blocks_in_systems", cnt);
                    if (U.norm() + B.norm() > 0) {
                        vp::nontrivial();
                        vp::outcome(hashM(U + B));
                    }
                }
}

int main(int c, char **v) {
    start(c, v);
    if (nproc == 1 && omp_get_max_threads() == 1)
        direct();
    if (nproc == 1)
        sums();
    systems();
    stop();
}
