// C33: fluctuation-dissipation of the Brownian velocity.  The random numbers are scripted (stubs/trng): every draw in turn is one standard
// deviation and all others zero, so the linear response of the whole system to its noise is read out exactly; its covariance must be
// 2 kBT / dt times the mobility.  All pairs of draws with all signs give the bilinear drift, which must average out.
#include "sys.hpp"
using sys::Part;

static std::map<unsigned long long, double> script; // position -> standard deviations
static std::set<unsigned long long> drawn;
static bool recording = false;
static double cdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static bool scripted(unsigned long, unsigned long long pos, double &u) {
    auto it = script.find(pos);
    u = it == script.end() ? 0.5 : cdf(it->second);
    return true;
}
static void hooked(const void *, unsigned long, unsigned long long pos) {
    if (recording)
#pragma omp critical(vpdraw)
        drawn.insert(pos);
}

static std::vector<double> velocity(SylinderSystem &s, const std::vector<int> &order) { // 6 per particle in the order of ids
    s.getRngPoolPtr() = std::make_shared<TRngPool>(77);
    s.calcVelocityBrown();
    struct V {
        int gid;
        double v[12];
    };
    std::vector<V> l;
    auto tv = s.getVelocityBrown()->getLocalView<Kokkos::HostSpace>();
    auto &c = s.getContainerNonConst();
    for (int i = 0; i < c.getNumberOfParticleLocal(); i++) {
        V a;
        a.gid = c[i].gid;
        for (int k = 0; k < 3; k++) {
            a.v[k] = c[i].velBrown[k];
            a.v[3 + k] = c[i].omegaBrown[k];
        }
        for (int k = 0; k < 6; k++)
            a.v[6 + k] = tv(6 * i + k, 0);
        l.push_back(a);
    }
    auto all = sys::gather(l);
    std::vector<double> r(6 * order.size(), 0.0);
    VP_CHECK(all.size() == order.size(), "%zu particles of %zu", all.size(), order.size());
    for (auto &a : all)
        for (size_t i = 0; i < order.size(); i++)
            if (order[i] == a.gid)
                for (int k = 0; k < 6; k++) {
                    r[6 * i + k] = a.v[k];
                    VP_CHECK(a.v[k] == a.v[6 + k], "particle %d: stored velocity %g and velocity vector %g differ", a.gid, a.v[k], a.v[6 + k]);
                }
    return r;
}
static double vnorm(const std::vector<double> &v) {
    double s = 0;
    for (double x : v)
        s = std::max(s, std::fabs(x));
    return s;
}

static void drag(double r, double L, double mu, double &para, double &perp, double &rot) {
    if (L < 2 * r) {
        double a = r + 0.5 * L;
        para = perp = 6 * M_PI * mu * a;
        rot = 8 * M_PI * mu * a * a * a;
    } else {
        double b = 2 * std::log(L / r) - 1;
        para = 4 * M_PI * mu * L / b;
        perp = 8 * M_PI * mu * L / (b + 2);
        rot = 2 * M_PI * mu * L * L * L / (3 * (b + 2));
    }
}

int main(int ac, char **av) {
    sys::start(ac, av);
    trng::stub::script() = scripted;
    trng::stub::hook() = hooked;
    bool th = vp::S().thorough;
    const double sh[][2] = {{0.5, 0}, {0.5, 0.7}, {0.5, 1.0}, {0.25, 2.5}, {0.05, 3}, {1, 1.5}};
    const int ns = 6;
    std::vector<Equatn> qs;
    for (int x = -1; x <= 1; x++)
        for (int y = -1; y <= 1; y++)
            for (int z = -1; z <= 1; z++)
                if (x || y || z)
                    qs.push_back(sys::dirq(x + 0.1 * y, y, z));
    for (int i = 0; i < 5; i++)
        qs.push_back(Equatn(0.3 + i, -1, 0.2 * i, 0.7 - i).normalized());
    const double phys[][3] = {{1, 0.01, 1}, {0.3, 1e-4, 0.5}, {4, 0.5, 20}}; // kBT, dt, viscosity
    for (int n = 1; n <= (th ? 5 : 4); n++)
        for (int t = 0; t < ns * ns; t++)
            for (int o = 0; o < (int)qs.size(); o += th ? 1 : (n == 1 ? 1 : 5))
                for (int im = 0; im < 4; im++) {
                    if (n == 1 && (t >= ns || im > 1))
                        continue;
                    if (n > 1 && !th && (t + o / 5 + im) % (n == 2 ? 4 : 12))
                        continue;
                    if (n > 1 && th && (t + o + im) % 7)
                        continue;
                    const double *ph = phys[(t + o + im) % 3];
                    if (!vp::begin(vp::fmt("n%d shapes%d orient%d imm%d kBT%g dt%g mu%g", n, t, o, im, ph[0], ph[1], ph[2])))
                        continue;
                    auto cf = sys::config();
                    cf.KBT = ph[0];
                    cf.dt = ph[1];
                    cf.viscosity = ph[2];
                    cf.sylinderDiameterColRatio = 1.3;
                    std::vector<Part> p(n);
                    std::vector<int> order;
                    for (int i = 0; i < n; i++) {
                        int k = i == 0 ? t % ns : (i == 1 ? t / ns : (t + 2 * i) % ns);
                        p[i].gid = (i * 5 + 3) % 97;
                        p[i].radius = sh[k][0];
                        p[i].length = sh[k][1];
                        p[i].imm = im == 3 || (im && i % 2 == im - 1);
                        p[i].q = qs[(o + i * 7) % qs.size()];
                        p[i].pos = Evec3(0.5 + 1.9 * i, 7.5 - 1.7 * i, 1 + (i * 3) % 7);
                        order.push_back(p[i].gid);
                    }
                    auto s = sys::make(cf, p);
                    s->prepareStep();
                    // which random numbers are drawn
                    script.clear();
                    drawn.clear();
                    recording = true;
                    auto v0 = velocity(*s, order);
                    recording = false;
                    VP_CHECK(vnorm(v0) < 1e-12 * std::sqrt(ph[0] / ph[1]), "velocity %g without noise", vnorm(v0));
                    std::vector<unsigned long long> loc(drawn.begin(), drawn.end()), all = sys::gather(loc);
                    std::set<unsigned long long> K(all.begin(), all.end());
                    std::vector<unsigned long long> ks(K.begin(), K.end());
                    std::vector<double> M(36 * n * n, 0.0);
                    int N = 6 * n, used = 0;
                    for (auto k : ks) {
                        script.clear();
                        script[k] = 1;
                        auto v = velocity(*s, order);
                        script[k] = -1;
                        auto w = velocity(*s, order);
                        for (int i = 0; i < N; i++)
                            VP_CHECK(vp::near(v[i], -w[i], 1e-9 * (vnorm(v) + vnorm(w))), "noise %llu: response %g to +1 and %g to -1", k, v[i], w[i]);
                        used += vnorm(v) > 0;
                        for (int i = 0; i < N; i++)
                            for (int j = 0; j < N; j++)
                                M[i * N + j] += v[i] * v[j];
                        vp::S().transitions += 2;
                    }
                    uint64_t h = 3;
                    for (int i = 0; i < N; i++)
                        for (int j = 0; j < N; j++) {
                            const Part &P = p[i / 6];
                            double a, b, c, want = 0, sc;
                            drag(P.radius, P.length, ph[2], a, b, c);
                            Evec3 q = P.q * Evec3(0, 0, 1);
                            double f = 2 * ph[0] / ph[1];
                            sc = f / std::min(std::min(a, b), c);
                            if (i / 6 == j / 6 && !P.imm) {
                                int x = i % 6, y = j % 6;
                                if (x < 3 && y < 3)
                                    want = f * (q[x] * q[y] * (1 / a - 1 / b) + (x == y ? 1 / b : 0));
                                else if (x == y)
                                    want = f / c;
                            }
                            double got = M[i * N + j];
                            double tol = i / 6 == j / 6 ? 1e-7 * sc : 1e-9 * sc;
                            VP_CHECK(P.imm ? got == 0 : vp::near(got, want, tol), "covariance of component %d of particle %d and %d of %d is %.9g instead of %.9g", i % 6,
                                     P.gid, j % 6, p[j / 6].gid, got, want);
                            h = vp::mix(h, vp::rnd(got / sc, 1e-5));
                        }
                    // pairs of draws: the bilinear part has zero mean and stays small compared with the noise
                    if (n == 1 || (th && n == 2)) {
                        double big = std::sqrt(2 * ph[0] / ph[1]);
                        for (size_t x = 0; x < ks.size(); x++)
                            for (size_t y = x + 1; y < ks.size(); y++) {
                                std::vector<double> sum(N, 0.0);
                                double mag = 0;
                                for (int sg = 0; sg < 4; sg++) {
                                    script.clear();
                                    script[ks[x]] = sg & 1 ? 1 : -1;
                                    script[ks[y]] = sg & 2 ? 1 : -1;
                                    auto v = velocity(*s, order);
                                    mag = std::max(mag, vnorm(v));
                                    for (int i = 0; i < N; i++)
                                        sum[i] += v[i];
                                }
                                VP_CHECK(vnorm(sum) <= 1e-7 * (mag + 1e-300), "mean velocity %g of the noise pair %zu %zu (magnitude %g)", vnorm(sum) / 4, x, y, mag);
                                VP_CHECK(mag < 1e3 * big * (1 + 1 / std::sqrt(ph[2])), "velocity %g of the noise pair %zu %zu", mag, x, y);
                                vp::S().transitions += 4;
                            }
                    }
                    // the total velocity contains it, once
                    script.clear();
                    for (auto k : ks)
                        script[k] = std::sin(1.0 + k * 2.4);
                    auto vb = velocity(*s, order);
                    s->calcVelocityNonCon();
                    auto tot = s->getVelocityNonCon()->getLocalView<Kokkos::HostSpace>();
                    auto &c = s->getContainerNonConst();
                    for (int i = 0; i < c.getNumberOfParticleLocal(); i++)
                        for (int o2 = 0; o2 < n; o2++)
                            if (order[o2] == c[i].gid)
                                for (int k = 0; k < 6; k++) {
                                    VP_CHECK(vp::near(tot(6 * i + k, 0), vb[6 * o2 + k], 1e-12 * (1 + vnorm(vb))), "particle %d component %d: velocity %g instead of the Brownian %g", c[i].gid,
                                             k, tot(6 * i + k, 0), vb[6 * o2 + k]);
                                    VP_CHECK(!c[i].isImmovable || vb[6 * o2 + k] == 0, "immovable particle %d has Brownian velocity %g", c[i].gid, vb[6 * o2 + k]);
                                }
                    vp::S().states += 1;
                    vp::S().traces += 1;
                    vp::nontrivial();
                    vp::outcome(h);
                    vp::count("noise_draws", ks.size());
                    vp::count("noise_draws_with_response", used);
                }
    // no temperature, no motion
    for (int n = 1; n < 3; n++)
        for (int mono = 0; mono < 2; mono++) {
            if (!vp::begin(vp::fmt("cold n%d mono%d", n, mono)))
                continue;
            auto cf = sys::config();
            cf.monolayer = mono;
            std::vector<Part> p(n);
            for (int i = 0; i < n; i++) {
                p[i].gid = i;
                p[i].pos = Evec3(1 + 3 * i, 2, 4);
                p[i].length = 2 * i;
                p[i].q = sys::dirq(1, 0, 0);
            }
            auto s = sys::make(cf, p);
            script.clear();
            for (unsigned long long k = 0; k < 500; k++)
                script[k] = 1.5;
            s->prepareStep();
            s->runStep();
            for (auto &a : sys::particles(*s))
                VP_CHECK((ECmap3(a.pos) - p[a.gid].pos).norm() == 0 && Evec3(ECmap3(a.velBrown)).norm() == 0 && Evec3(ECmap3(a.omegaBrown)).norm() == 0,
                         "particle %d moves without temperature", a.gid);
            vp::outcome(vp::fmt("cold %d", n));
        }
    sys::stop();
}
