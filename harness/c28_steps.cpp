// C28: the step loop.  Snapshot schedule for a lattice of time steps and intervals; the content and numbering of the snapshots of whole runs;
// monolayer systems of all orientations under forces, torques, contacts, links and noise; fixed systems.
#include "io.hpp"
#include "sys.hpp"
using sys::Part;

static std::vector<Part> crowd(int n, double box, int var) {
    std::vector<Part> p(n);
    const double sh[][2] = {{0.5, 0}, {0.25, 1.5}, {0.3, 0.4}, {0.2, 2}};
    for (int i = 0; i < n; i++) {
        p[i].gid = (i * 5 + 3) % 97;
        p[i].radius = sh[(i + var) % 4][0];
        p[i].length = sh[(i + var) % 4][1];
        p[i].q = sys::dirq((i + var) % 3 - 1, (i * var) % 3 - 0.5, (i / 2) % 3 - 0.9);
        for (int k = 0; k < 3; k++) {
            double x = 0.31 + i * 0.754877666 * (k + 1) + 0.1 * var;
            p[i].pos[k] = box * (x - std::floor(x));
        }
    }
    return p;
}

static void schedule() {
    // one system is stepped; at every step the predicate is asked for the whole lattice of time steps and intervals
    struct S {
        double dt, snap;
        int every;
        std::string name;
    };
    std::vector<S> l;
    for (const char *d : {"1", "0.1", "0.2", "0.3", "0.7", "0.01", "0.05", "0.03", "0.001", "0.0001", "1e-05", "0.25", "3e-4", "1.1e-3", "7e-6"})
        for (int k = 1; k <= 40; k++) {
            double dt = atof(d);
            l.push_back({dt, k * dt, k, vp::fmt("%s x %d", d, k)});
            l.push_back({dt, atof(vp::fmt("%.12g", k * dt).c_str()), k, vp::fmt("%s x %d, as written", d, k)});
        }
    for (double f : {0.99, 0.5, 0.1, 1e-3})
        for (double dt : {0.1, 0.01, 1e-4})
            l.push_back({dt, f * dt, 1, vp::fmt("%g x %g", dt, f)}); // shorter than the step: every step
    auto cf = sys::config();
    auto s = sys::make(cf, crowd(2, 8, 0));
    int steps = vp::S().thorough ? 200 : 82;
    for (int st = 0; st <= steps; st++) {
        VP_CHECK(s->getStepCount() == st, "step counter is %d after %d steps", s->getStepCount(), st);
        for (auto &c : l) {
            if (!vp::begin(vp::fmt("schedule step%d dt%s", st, c.name.c_str())))
                continue;
            s->runConfig.dt = c.dt;
            s->runConfig.timeSnap = c.snap;
            bool w = s->getIfWriteResultCurrentStep();
            VP_CHECK(w == (st % c.every == 0), "dt %.17g interval %.17g: %s at step %d", c.dt, c.snap, w ? "snapshot" : "no snapshot", st);
            if (w)
                vp::nontrivial();
            vp::outcome(vp::fmt("%d %d", c.every, st % c.every));
        }
        s->runConfig = cf;
        s->prepareStep();
        s->runStep();
    }
}

// whole runs
static void runs() {
    const double dts[] = {0.01, 0.1, 0.003};
    for (int id = 0; id < 3; id++)
        for (int k = 1; k <= (vp::S().thorough ? 9 : 5); k++)
            for (int var = 0; var < 3; var++) {
                if (!vp::begin(vp::fmt("run dt%g every%d var%d", dts[id], k, var)))
                    continue;
                auto cf = sys::config();
                cf.dt = dts[id];
                cf.timeSnap = k * dts[id];
                for (int i = 0; i < 3; i++)
                    cf.simBoxPBC[i] = var == 1;
                cf.KBT = var == 2 ? 0.01 : 0;
                cf.initPreSteps = (id + k + var) % 3; // steps before the first one are not counted
                if (sys::rank == 0)
                    io::clean();
                MPI_Barrier(MPI_COMM_WORLD);
                auto s = sys::make(cf, crowd(5, 8, var));
                int snaps = 0, N = 3 * k + 2;
                for (int st = 0; st < N; st++) {
                    s->prepareStep();
                    auto before = sys::particles(*s);
                    auto loc = sys::localParticles(*s);
                    std::vector<double> f(6 * loc.size(), 3.0);
                    s->setForceNonBrown(f);
                    VP_CHECK(s->getSnapID() == snaps, "snapshot counter %d, %d snapshots written", s->getSnapID(), snaps);
                    s->runStep();
                    auto after = sys::particles(*s);
                    bool want = st % k == 0;
                    MPI_Barrier(MPI_COMM_WORLD);
                    int ok = 1;
                    if (sys::rank == 0) {
                        auto have = io::snapshots();
                        VP_CHECK((int)have.size() == snaps + want, "step %d: %zu snapshots, expected %d", st, have.size(), snaps + want);
                        for (int i = 0; i < snaps + want; i++)
                            VP_CHECK(have.count(i), "snapshot %d is missing", i);
                        if (want) {
                            auto a = io::ascii(io::find(vp::fmt("SylinderAscii_%d.dat", snaps)));
                            VP_CHECK(a.ok && a.rows.size() == before.size(), "snapshot %d: %s %zu particles", snaps, a.err.c_str(), a.rows.size());
                            VP_CHECK(vp::near(a.time, st * cf.dt, 1e-5 * st * cf.dt), "snapshot %d is labelled time %g, step %d is at %g", snaps, a.time, st, st * cf.dt);
                            auto inf = io::info("TimeStepInfo.txt");
                            VP_CHECK(inf.ok && (int)inf.step == st && (int)inf.snap == snaps, "restart record names step %lu snapshot %lu, written at step %d snapshot %d", inf.step,
                                     inf.snap, st, snaps);
                            double moved = 0;
                            for (auto &r : a.rows)
                                for (size_t i = 0; i < before.size(); i++)
                                    if (before[i].gid == r.gid) {
                                        for (int c = 0; c < 3; c++) {
                                            double x = 0.5 * (r.m[c] + r.p[c]);
                                            VP_CHECK(vp::near(x, before[i].pos[c], 1e-6), "snapshot %d: particle %d is at %g instead of %g (before the step)", snaps, r.gid, x,
                                                     before[i].pos[c]);
                                            moved = std::max(moved, std::fabs(before[i].pos[c] - after[i].pos[c]));
                                        }
                                    }
                            VP_CHECK(moved > 1e-5, "nothing moved");
                        }
                    }
                    (void)ok;
                    if (want)
                        snaps++;
                    vp::count(want ? "snapshots" : "steps_without_snapshot");
                }
                VP_CHECK(s->getSnapID() == snaps && s->getStepCount() == N, "counters %d %d after %d steps with %d snapshots", s->getStepCount(), s->getSnapID(), N, snaps);
                vp::nontrivial();
                vp::outcome(vp::fmt("run %d %d", snaps, N));
                MPI_Barrier(MPI_COMM_WORLD);
            }
    if (sys::rank == 0)
        io::clean();
}

static void flat(SylinderSystem &s, double mid, const char *when) {
    for (auto &p : sys::localParticles(s)) {
        Evec3 a = sys::axis(p.orientation);
        VP_CHECK(vp::near(p.pos[2], mid, 1e-9), "%s particle %d is %g above the mid plane", when, p.gid, p.pos[2] - mid);
        VP_CHECK(std::fabs(a[2]) < 1e-7 && vp::near(a.norm(), 1, 1e-9), "%s the axis of particle %d is (%g %g %g)", when, p.gid, a[0], a[1], a[2]);
        VP_CHECK(vp::near(ECmapq(p.orientation).norm(), 1, 1e-9), "%s the quaternion of particle %d has norm %g", when, p.gid, ECmapq(p.orientation).norm());
    }
}

static void monolayer() {
    bool th = vp::S().thorough;
    const double zr[][2] = {{0, 8}, {-3, 1}, {2.5, 2.75}};
    for (int pb = 0; pb < 8; pb++)
        for (int iz = 0; iz < 3; iz++)
            for (int load = 0; load < 8; load++)
                for (int lk = 0; lk < 2; lk++)
                    for (int var = 0; var < (th ? 9 : 3); var++) {
                        if (!th && (pb + iz + load + lk + var) % 2)
                            continue;
                        if (!vp::begin(vp::fmt("flat pbc%d z%d load%d link%d var%d", pb, iz, load, lk, var)))
                            continue;
                        auto cf = sys::config();
                        for (int k = 0; k < 3; k++)
                            cf.simBoxPBC[k] = pb >> k & 1;
                        cf.simBoxLow[2] = zr[iz][0];
                        cf.simBoxHigh[2] = zr[iz][1];
                        cf.monolayer = true;
                        double mid = 0.5 * (zr[iz][0] + zr[iz][1]);
                        cf.KBT = load & 4 ? 0.2 : 0;
                        cf.dt = 1e-3;
                        std::vector<Part> p;
                        std::vector<Link> l;
                        int g = 0;
                        // all orientations, the axis of the plane included, far and near
                        for (int x = -1; x <= 1; x++)
                            for (int y = -1; y <= 1; y++)
                                for (int z = -1; z <= 1; z++) {
                                    if (!x && !y && !z)
                                        continue;
                                    if ((x + 2 * y + 3 * z + 9 + var) % 3 && !(x == 0 && y == 0))
                                        continue;
                                    Part a;
                                    a.gid = g;
                                    a.radius = 0.2 + 0.05 * (g % 3);
                                    a.length = g % 4 == 3 ? 0 : 0.9 + 0.3 * (g % 2);
                                    a.pos = Evec3(0.7 + 1.1 * (g % 6) + 0.02 * g, 0.9 + 0.9 * (g / 6), zr[iz][0] + (zr[iz][1] - zr[iz][0]) * (0.1 + 0.09 * (g % 9)));
                                    a.q = sys::dirq(x, y, z);
                                    if (g && lk && g % 3 == 0)
                                        l.push_back(Link{g - 1, g});
                                    g++;
                                    p.push_back(a);
                                }
                        auto s = sys::make(cf, p, l);
                        std::map<int, Part> want;
                        for (auto &a : p)
                            want[a.gid] = a;
                        uint64_t h = 3;
                        for (int st = 0; st < 3; st++) {
                            s->prepareStep();
                            flat(*s, mid, "after preparation");
                            auto pre = sys::localParticles(*s);
                            if (st == 0)
                                for (auto &a : pre) {
                                    Evec3 d = want[a.gid].q * Evec3(0, 0, 1), ax = sys::axis(a.orientation);
                                    d[2] = 0;
                                    if (d.norm() > 0.1) // the axis is turned into the plane, keeping its in-plane direction
                                        VP_CHECK((ax - d.normalized()).norm() < 1e-9, "the axis of particle %d is turned within the plane", a.gid);
                                    for (int k = 0; k < 2; k++)
                                        VP_CHECK(vp::near(a.pos[k], want[a.gid].pos[k], 1e-12), "particle %d is shifted within the plane", a.gid);
                                }
                            std::vector<double> f(6 * pre.size(), 0.0), v = f;
                            for (size_t i = 0; i < f.size(); i++) {
                                f[i] = 2 * std::sin(1.0 + 3 * i + pre[i / 6].gid);
                                v[i] = std::cos(2.0 + 5 * i + pre[i / 6].gid);
                            }
                            if (load & 1)
                                s->setForceNonBrown(f);
                            if (load & 2)
                                s->setVelocityNonBrown(v);
                            s->runStep();
                            flat(*s, mid, "after the step");
                            auto now = sys::localParticles(*s);
                            double in = 0;
                            for (size_t i = 0; i < now.size(); i++) {
                                auto &a = now[i];
                                VP_CHECK(vp::near(a.vel[2], 0, 1e-6) && vp::near(a.omega[0], 0, 1e-6) && vp::near(a.omega[1], 0, 1e-6),
                                         "particle %d moves out of the plane: velocity %g rotation %g %g", a.gid, a.vel[2], a.omega[0], a.omega[1]);
                                in = std::max(in, std::fabs(a.vel[0]) + std::fabs(a.vel[1]) + std::fabs(a.omega[2]));
                                if (load == 2 && !lk) { // in-plane motion is not suppressed
                                    VP_CHECK(vp::near(a.velNonB[0], v[6 * i], 1e-9) && vp::near(a.velNonB[1], v[6 * i + 1], 1e-9) && vp::near(a.omegaNonB[2], v[6 * i + 5], 1e-9),
                                             "particle %d: the prescribed in-plane velocity is lost", a.gid);
                                }
                                if (cf.KBT > 0)
                                    VP_CHECK(std::fabs(a.velBrown[0]) + std::fabs(a.velBrown[1]) > 0, "no in-plane Brownian motion");
                                h = vp::mix(h, vp::rnd(a.vel[0], 1e-4));
                            }
                            if (load && now.size())
                                VP_CHECK(in > 0, "nothing moves");
                            vp::count("flat_steps");
                        }
                        vp::nontrivial();
                        vp::outcome(h);
                    }
}

static void fixedRuns() {
    for (int load = 0; load < 8; load++)
        for (int pre = 0; pre < 3; pre += 2)
            for (int mono = 0; mono < 2; mono++)
                for (int pb = 0; pb < 2; pb++) {
                    if (!vp::begin(vp::fmt("fixed load%d pre%d mono%d pbc%d", load, pre, mono, pb)))
                        continue;
                    auto cf = sys::config();
                    cf.sylinderFixed = true;
                    cf.conMaxIte = 100;
                    cf.initPreSteps = pre;
                    cf.monolayer = mono;
                    cf.KBT = load & 4 ? 0.5 : 0;
                    for (int k = 0; k < 3; k++)
                        cf.simBoxPBC[k] = pb;
                    auto p = crowd(mono ? 8 : 12, mono ? 7 : 4, load);
                    if (mono)
                        for (auto &a : p) {
                            a.pos[2] = 4;
                            a.q = sys::dirq(std::sin(a.gid), std::cos(a.gid), 0);
                        }
                    auto s = sys::make(cf, p, {{p[0].gid, p[1].gid}}, false);
                    auto first = sys::particles(*s);
                    std::map<int, Part> want;
                    for (auto &a : p)
                        want[a.gid] = a;
                    for (auto &a : first)
                        VP_CHECK((ECmap3(a.pos) - want[a.gid].pos).norm() < 1e-9, "particle %d moved by %g during initialization", a.gid, (ECmap3(a.pos) - want[a.gid].pos).norm());
                    sys::setExact(*s, p);
                    for (int st = 0; st < 3; st++) {
                        s->prepareStep();
                        auto loc = sys::localParticles(*s);
                        std::vector<double> f(6 * loc.size());
                        for (size_t i = 0; i < f.size(); i++)
                            f[i] = std::sin(1.0 + 3 * i) * 10;
                        if (load & 1)
                            s->setForceNonBrown(f);
                        if (load & 2)
                            s->setVelocityNonBrown(f);
                        s->runStep();
                        VP_CHECK(s->getStepCount() == st + 1, "step counter %d", s->getStepCount());
                        for (auto &a : sys::particles(*s)) {
                            auto &w = want[a.gid];
                            double dq = (sys::axis(a.orientation) - w.q * Evec3(0, 0, 1)).norm();
                            VP_CHECK((ECmap3(a.pos) - w.pos).norm() <= 1e-12 && dq < 1e-9, "particle %d moved by %g, turned by %g in fixed mode", a.gid,
                                     (ECmap3(a.pos) - w.pos).norm(), dq);
                        }
                    }
                    vp::nontrivial();
                    vp::outcome(vp::fmt("fixed %d %d", load, mono));
                }
}

int main(int c, char **v) {
    sys::start(c, v);
    if (sys::nproc == 1)
        schedule();
    runs();
    monolayer();
    fixedRuns();
    sys::stop();
}
