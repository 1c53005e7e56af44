// C30: the same deterministic system on different numbers of ranks and threads.  "--write" (one rank, one thread) records after every step what every
// particle holds; the other stages run the same systems and compare step by step.
#include "io.hpp"
#include "sys.hpp"
#include <algorithm>
using sys::Part;

struct Case {
    std::string name;
    SylinderConfig cf;
    std::vector<Part> p;
    std::vector<Link> l;
    int steps = 6, id = 0;
    bool extF = false, extV = false, late = false;
};

static std::vector<Case> cases() {
    std::vector<Case> r;
    struct K {
        int n, pbc, links, mono, bnd, solver, ext, shape, steps, ratio, fixed, pre;
    };
    std::vector<K> ks = {
        {1, 0, 0, 0, 0, 0, 1, 0, 4, 0, 0, 0},  {2, 7, 1, 0, 0, 0, 1, 0, 6, 0, 0, 0},   {8, 0, 4, 0, 1, 0, 1, 1, 8, 0, 0, 0},  {8, 7, 0, 0, 0, 1, 2, 1, 8, 1, 0, 0},
        {16, 7, 8, 0, 0, 0, 3, 1, 8, 0, 0, 0}, {16, 3, 0, 0, 1, 0, 1, 2, 8, 1, 0, 0},   {12, 3, 6, 1, 0, 0, 1, 1, 8, 0, 0, 0}, {40, 7, 20, 0, 0, 0, 1, 1, 6, 0, 0, 0},
        {40, 0, 0, 0, 3, 1, 0, 0, 6, 0, 0, 0}, {40, 4, 10, 0, 2, 0, 1, 3, 6, 1, 0, 0},  {60, 7, 0, 0, 0, 0, 1, 2, 5, 0, 0, 3}, {10, 7, 5, 0, 0, 0, 1, 1, 60, 0, 0, 0},
        {20, 0, 0, 0, 1, 0, 0, 0, 5, 0, 1, 0}, {120, 7, 30, 0, 0, 0, 1, 1, 4, 1, 0, 0},
    };
    for (int pbc = 0; pbc < 8; pbc++)
        ks.push_back({10 + pbc, pbc, 5, 0, pbc == 0 ? 3 : 0, pbc % 2, 1 + pbc % 3, pbc % 4, 5, pbc % 2, 0, 0});
    if (vp::S().thorough)
        for (int i = 0; i < 24; i++)
            ks.push_back({5 + 7 * i, i % 8, i % 3 ? 2 * i : 0, i % 7 == 3 && i < 4, i % 4 == 1 ? 1 : 0, i % 2, i % 4, i % 4, i % 5 == 0 ? 55 : 10, i % 2, 0, i % 6 == 5 ? 2 : 0});
    int id = 0;
    for (auto &k : ks) {
        Case c;
        c.id = id;
        c.name = vp::fmt("case%d n%d pbc%d links%d mono%d walls%d solver%d forces%d shape%d", id, k.n, k.pbc, k.links, k.mono, k.bnd, k.solver, k.ext, k.shape);
        c.cf = sys::config();
        c.cf.dt = 0.01;
        c.cf.conResTol = 1e-9;
        c.cf.conSolverChoice = k.solver;
        c.cf.monolayer = k.mono;
        c.cf.sylinderFixed = k.fixed;
        c.cf.initPreSteps = k.pre;
        c.cf.linkKappa = 20;
        c.cf.linkGap = 0.1;
        c.steps = k.steps;
        c.extF = k.ext & 1;
        c.extV = k.ext & 2;
        if (k.ratio) {
            c.cf.sylinderDiameterColRatio = 1.1;
            c.cf.sylinderLengthColRatio = 0.9;
        }
        const int nc[3] = {5, 5, 5};
        double L[3];
        for (int d = 0; d < 3; d++) {
            c.cf.simBoxPBC[d] = k.pbc >> d & 1;
            c.cf.simBoxLow[d] = -2 + d;
            L[d] = (5 + 0.5 * d + (id % 3)) * (k.n > 50 ? 1.6 : 1);
            c.cf.simBoxHigh[d] = c.cf.simBoxLow[d] + L[d];
        }
        if (k.bnd & 1) {
            double ctr[3] = {0, 0, c.cf.simBoxLow[2] + 0.35}, nrm[3] = {0, 0, 1};
            c.cf.boundaryPtr.push_back(std::make_shared<Wall>(ctr, nrm));
        }
        if (k.bnd & 2) {
            double ctr[3];
            for (int d = 0; d < 3; d++)
                ctr[d] = c.cf.simBoxLow[d] + L[d] / 2;
            c.cf.boundaryPtr.push_back(std::make_shared<SphereShell>(ctr, 0.62 * L[2], true));
        }
        const double rad[] = {0.35, 0.3, 0.4}, dir[][3] = {{0, 0, 1}, {1, 0, 0}, {0.3, 1, 0}, {1, 1, 1}, {-1, 0.3, -0.2}, {0.2, -0.9, 0.5}, {0.1, 0.2, -5}};
        for (int i = 0; i < k.n; i++) {
            Part a;
            a.gid = (i * 29 + 3 * id) % 211;
            a.group = i % 4;
            a.imm = i % 6 == 5;
            a.radius = rad[(i + id) % 3];
            a.length = k.shape == 0 ? 0 : k.shape == 1 ? 0.4 * (i % 3) : k.shape == 2 ? 0.8 : 1.1 * (i % 2);
            const double *d = dir[(i + id) % 7];
            a.q = sys::dirq(d[0], d[1], d[2]);
            int j = k.n <= 25 ? i : i * 37 % 125; // a compact cluster, or all over the box
            int cell[3] = {j % 5, j / 5 % 5, j / 25};
            if (k.n <= 25 && !k.mono) {
                cell[0] = i % 3;
                cell[1] = i / 3 % 3;
                cell[2] = i / 9;
            }
            for (int q = 0; q < 3; q++) {
                double x = i * std::fmod(0.754877666 * (q + 1), 1.0);
                double pitch = k.n <= 25 && !k.mono ? 0.95 : L[q] / nc[q];
                // clusters lie across a corner of the box when it is periodic
                double o = k.n <= 25 && !k.mono && !c.cf.simBoxPBC[q] ? 0.6 : 0;
                a.pos[q] = c.cf.simBoxLow[q] + o + pitch * (cell[q] + 0.5 - (c.cf.simBoxPBC[q] && k.n <= 25 && !k.mono ? 1.2 : 0)) + 0.12 * (x - std::floor(x) - 0.5);
                if (c.cf.simBoxPBC[q] && a.pos[q] < c.cf.simBoxLow[q])
                    a.pos[q] += L[q];
            }
            c.p.push_back(a);
        }
        for (int i = 0; i < k.links && k.n > 1; i++) {
            Link l;
            l.prev = c.p[i % k.n].gid;
            l.next = c.p[(i + 1 + i / k.n) % k.n].gid;
            if (l.prev != l.next)
                c.l.push_back(l);
        }
        r.push_back(c);
        id++;
    }
    return r;
}

struct Row {
    int gid;
    double pos[3], ax[3], vel[3], omega[3], velCol[3], omegaCol[3], velBi[3], forceCol[3], torqueCol[3], forceBi[3], velNonB[3];
};
static std::vector<Row> rows(SylinderSystem &s) {
    std::vector<Row> r;
    for (auto &a : sys::particles(s)) {
        Row q;
        memset(&q, 0, sizeof q);
        q.gid = a.gid;
        Evec3 x = sys::axis(a.orientation);
        for (int k = 0; k < 3; k++) {
            q.pos[k] = a.pos[k];
            q.ax[k] = x[k];
            q.vel[k] = a.vel[k];
            q.omega[k] = a.omega[k];
            q.velCol[k] = a.velCol[k];
            q.omegaCol[k] = a.omegaCol[k];
            q.velBi[k] = a.velBi[k];
            q.forceCol[k] = a.forceCol[k];
            q.torqueCol[k] = a.torqueCol[k];
            q.forceBi[k] = a.forceBi[k];
            q.velNonB[k] = a.velNonB[k];
        }
        r.push_back(q);
    }
    std::sort(r.begin(), r.end(), [](const Row &a, const Row &b) { return a.gid < b.gid; });
    return r;
}

int main(int argc, char **argv) {
    bool write = false;
    for (int i = 1; i < argc; i++)
        write |= !strcmp(argv[i], "--write");
    sys::start(argc, argv);
    const int nthr = omp_get_max_threads();
    double worst[4] = {0, 0, 0, 0};
    for (auto &c : cases()) {
        std::string key = write ? c.name : vp::fmt("ranks%d threads%d %s", sys::nproc, nthr, c.name.c_str());
        if (write)
            vp::S().evaluations++;
        else if (!vp::begin(key))
            continue;
        auto s = sys::make(c.cf, c.p, c.l, c.cf.initPreSteps == 0);
        std::set<int> ranksUsed;
        for (int st = 0; st < c.steps; st++) {
            s->prepareStep();
            std::vector<double> f, v;
            for (auto &a : sys::localParticles(*s))
                for (int k = 0; k < 6; k++) {
                    f.push_back(std::sin(0.7 * a.gid + 1.3 * k + 0.2 * st));
                    v.push_back(0.3 * std::cos(1.1 * a.gid + 2.1 * k));
                }
            if (c.extF)
                s->setForceNonBrown(f);
            if (c.extV)
                s->setVelocityNonBrown(v);
            s->runStep();
            if (sys::nproc > 1 && !write) {
                std::vector<int> cnt;
                sys::particles(*s, &cnt);
                for (int k = 0; k < sys::nproc; k++)
                    if (cnt[k])
                        ranksUsed.insert(k);
            }
            auto r = rows(*s);
            std::string fn = vp::fmt("t%d_%d", c.id, st);
            if (write) {
                FILE *o = fopen(fn.c_str(), "w");
                fwrite(r.data(), sizeof(Row), r.size(), o);
                fclose(o);
                continue;
            }
            vp::S().states++;
            vp::S().transitions++;
            std::string t = io::slurp(fn);
            std::vector<Row> ref(t.size() / sizeof(Row));
            memcpy((void *)ref.data(), t.data(), ref.size() * sizeof(Row));
            VP_CHECK(r.size() == ref.size() && r.size() == c.p.size(), "step %d: %zu particles, %zu on one rank", st, r.size(), ref.size());
            if (r.size() != ref.size())
                break;
            double fscale = 1;
            for (auto &a : ref)
                for (int k = 0; k < 3; k++)
                    fscale = std::max(fscale, std::max(std::fabs(a.forceCol[k]), std::fabs(a.forceBi[k])));
            for (size_t i = 0; i < r.size(); i++) {
                VP_CHECK(r[i].gid == ref[i].gid, "step %d: particle %d instead of %d", st, r[i].gid, ref[i].gid);
                double dp = 0, dv = 0, df = 0, da = 0;
                for (int k = 0; k < 3; k++) {
                    double d = r[i].pos[k] - ref[i].pos[k], L = c.cf.simBoxHigh[k] - c.cf.simBoxLow[k];
                    if (c.cf.simBoxPBC[k])
                        d -= L * std::round(d / L);
                    dp = std::max(dp, std::fabs(d));
                    da = std::max(da, std::fabs(r[i].ax[k] - ref[i].ax[k]));
                    for (auto q : {&Row::vel, &Row::omega, &Row::velCol, &Row::omegaCol, &Row::velBi, &Row::velNonB})
                        dv = std::max(dv, std::fabs((r[i].*q)[k] - (ref[i].*q)[k]));
                    for (auto q : {&Row::forceCol, &Row::forceBi, &Row::torqueCol})
                        df = std::max(df, std::fabs((r[i].*q)[k] - (ref[i].*q)[k]));
                }
                worst[0] = std::max(worst[0], dp);
                worst[1] = std::max(worst[1], da);
                worst[2] = std::max(worst[2], dv);
                worst[3] = std::max(worst[3], df / fscale);
                VP_CHECK(dp < 1e-6, "step %d: particle %d is %g away from where it is on one rank", st, r[i].gid, dp);
                VP_CHECK(da < 1e-5, "step %d: axis of particle %d differs by %g", st, r[i].gid, da);
                VP_CHECK(dv < 1e-4, "step %d: velocity of particle %d differs by %g", st, r[i].gid, dv);
                VP_CHECK(df < 1e-4 * fscale, "step %d: constraint force on particle %d differs by %g", st, r[i].gid, df);
                if (std::fabs(ref[i].forceCol[0]) > 1e-3)
                    vp::nontrivial();
            }
            if (std::isnan(worst[0] + worst[1] + worst[2] + worst[3]))
                vp::fail("not a number");
        }
        vp::S().traces++;
        vp::count("ranks_with_particles", ranksUsed.size());
        vp::outcome(vp::fmt("%s %zu", c.name.c_str(), ranksUsed.size()));
        s.reset();
        if (sys::rank == 0)
            io::clean();
        MPI_Barrier(MPI_COMM_WORLD);
    }
    if (getenv("VP_STDOUT") && sys::rank == 0)
        fprintf(stderr, "worst pos %g axis %g vel %g force %g\n", worst[0], worst[1], worst[2], worst[3]);
    vp::done();
    sys::stop();
    return 0;
}
