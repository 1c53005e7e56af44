// C18: restart.  "--phase write": uninterrupted runs of the real program write their snapshots and leave a record of everything they held after
// every step.  "--phase restart" (any number of ranks): for every snapshot of every run the directory as it was when that snapshot was complete is
// restarted; the restored state is compared with the run's, the continued run with the uninterrupted one, step by step, and it is restarted again
// from each snapshot it writes itself.
#include "io.hpp"
#include "sys.hpp"
#include "vtk.hpp"
#include <algorithm>
using sys::Part;

struct Case {
    std::string name;
    SylinderConfig cf;
    std::vector<Part> p;
    std::vector<Link> l;
    int steps = 8, every = 1, bound = 0;
    bool exact = true; // deterministic
};

static std::vector<Case> cases() {
    std::vector<Case> r;
    struct K {
        int n, pbc, links, every, mono, kbt, len, ratio;
    };
    const K ks[] = {{1, 0, 0, 1, 0, 0, 1, 0},  {2, 7, 1, 1, 0, 0, 1, 0},  {7, 0, 3, 1, 0, 0, 1, 1},  {9, 7, 4, 2, 0, 0, 1, 0},  {12, 3, 5, 3, 0, 0, 2, 1},
                    {8, 4, 0, 1, 1, 0, 1, 0},  {6, 7, 2, 1, 0, 1, 1, 0},  {30, 7, 9, 2, 0, 0, 1, 0}, {5, 0, 4, 4, 0, 0, 0, 0},  {40, 5, 0, 1, 0, 0, 2, 1}};
    int id = 0;
    for (auto &k : ks) {
        Case c;
        c.name = vp::fmt("case%d n%d pbc%d links%d every%d mono%d kbt%d", id, k.n, k.pbc, k.links, k.every, k.mono, k.kbt);
        c.cf = sys::config();
        c.cf.dt = 0.01;
        c.cf.timeSnap = k.every * 0.01;
        c.cf.rngSeed = 100 * id + 7;
        c.cf.KBT = k.kbt ? 0.05 : 0;
        c.cf.monolayer = k.mono;
        c.exact = !k.kbt;
        c.every = k.every;
        c.steps = std::max(5, 3 * k.every + 1);
        c.cf.linkKappa = 20;
        c.cf.linkGap = 0.1;
        if (k.ratio) {
            c.cf.sylinderDiameterColRatio = 0.8;
            c.cf.sylinderLengthColRatio = 1.25;
        }
        for (int d = 0; d < 3; d++) {
            c.cf.simBoxPBC[d] = k.pbc >> d & 1;
            c.cf.simBoxLow[d] = -1 - d;
            c.cf.simBoxHigh[d] = 5 + d;
        }
        const double rad[] = {0.3, 0.25, 0.4}, len[] = {0, 0.7, 1.3, 0.31};
        const double dir[][3] = {{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, 1, 0}, {1, 1, 1}, {-1, 0.3, -0.2}, {0.2, -0.9, 0.5}, {0.1, 0.2, -5}};
        for (int i = 0; i < k.n; i++) {
            Part a;
            a.gid = (i * 7 + 3 * id) % 101 + (i == 2 ? 1000000 : 0);
            a.group = i % 4 - 1;
            a.imm = i % 5 == 3;
            a.radius = rad[i % 3];
            a.length = k.len == 0 ? 0 : len[(i + k.len) % 4];
            const double *d = dir[(i + id) % 8];
            a.q = sys::dirq(d[0], d[1], d[2]);
            // a roll about the axis, which is not stored
            a.q = a.q * Equatn(Eigen::AngleAxisd(0.3 * i, Evec3(0, 0, 1)));
            // cells of a 4 x 4 x 3 lattice: neighbours touch, axes do not cross (the normal of crossing axes is not a continuous function of them)
            int cell[3] = {i % 4, i / 4 % 4, i / 16}, nc[3] = {4, 4, 3};
            for (int q = 0; q < 3; q++) {
                double x = i * std::fmod(0.754877666 * (q + 1), 1.0), L = c.cf.simBoxHigh[q] - c.cf.simBoxLow[q];
                double pitch = k.n > 16 ? L / nc[q] : std::min(L / nc[q], 1.55);
                a.pos[q] = c.cf.simBoxLow[q] + pitch * (cell[q] + 0.5) + 0.1 * (x - std::floor(x)) + (k.n > 16 ? 0 : 0.3 * (id % 3));
            }
            c.p.push_back(a);
        }
        for (int i = 0; i < k.links; i++) {
            Link l;
            // several links of one particle, both ways
            l.prev = c.p[(i / 2) % k.n].gid;
            l.next = c.p[(i + 1) % k.n].gid;
            c.l.push_back(l);
        }
        c.bound = id % 3 == 0;
        r.push_back(c);
        id++;
    }
    return r;
}

// forces that depend on the particle and the step number
static void drive(SylinderSystem &s, const Case &c) {
    if (c.bound && s.runConfig.boundaryPtr.empty()) {
        double ctr[3] = {0, 0, c.cf.simBoxLow[2] + 1}, nrm[3] = {0, 0, 1};
        s.runConfig.boundaryPtr.push_back(std::make_shared<Wall>(ctr, nrm));
    }
    s.prepareStep();
    std::vector<double> f;
    for (auto &a : sys::localParticles(s))
        for (int k = 0; k < 6; k++)
            f.push_back(2 * std::sin(0.7 * (a.gid % 1000) + 1.3 * k + 0.9 * s.getStepCount()));
    s.setForceNonBrown(f);
    s.runStep();
}

static void cdir(const std::string &d, bool fresh) {
    if (sys::rank == 0 && fresh)
        mkdir(d.c_str(), 0755);
    MPI_Barrier(MPI_COMM_WORLD);
    if (chdir(d.c_str())) {
        perror(d.c_str());
        _exit(3);
    }
}
template <class T>
static void dump(const std::string &fn, const std::vector<T> &v) {
    FILE *f = fopen(fn.c_str(), "w");
    fwrite(v.data(), sizeof(T), v.size(), f);
    fclose(f);
}
template <class T>
static std::vector<T> load(const std::string &fn) {
    std::string s = io::slurp(fn);
    std::vector<T> v(s.size() / sizeof(T));
    memcpy((void *)v.data(), s.data(), v.size() * sizeof(T));
    return v;
}
static std::vector<std::string> resultFiles(const std::string &base) {
    std::vector<std::string> r;
    DIR *d = opendir(base.c_str());
    if (!d)
        return r;
    while (dirent *e = readdir(d)) {
        if (e->d_name[0] == '.')
            continue;
        std::string s = base + "/" + e->d_name;
        DIR *q = opendir(s.c_str());
        if (!q)
            continue;
        while (dirent *g = readdir(q))
            if (g->d_name[0] != '.')
                r.push_back(std::string(e->d_name) + "/" + g->d_name);
        closedir(q);
    }
    closedir(d);
    std::sort(r.begin(), r.end());
    return r;
}

static void writePhase() {
    int id = 0;
    for (auto &c : cases()) {
        cdir(vp::fmt("w%d", id++), true);
        {
            auto s = sys::make(c.cf, c.p, c.l);
            int snaps = 0;
            for (int st = 0; st < c.steps; st++) {
                bool w = s->getIfWriteResultCurrentStep();
                drive(*s, c);
                MPI_Barrier(MPI_COMM_WORLD);
                auto p = sys::particles(*s);
                if (sys::rank == 0) {
                    dump(vp::fmt("truth%d", st), p);
                    if (w) {
                        std::string t = io::slurp("TimeStepInfo.txt");
                        dump(vp::fmt("rec%d", snaps), std::vector<char>(t.begin(), t.end()));
                    }
                }
                snaps += w;
            }
            vp::count("steps_recorded", c.steps);
            vp::S().evaluations++;
        }
        cdir("..", false);
    }
}

static Evec3 delta(const Case &c, const double *a, const double *b) {
    Evec3 d(a[0] - b[0], a[1] - b[1], a[2] - b[2]);
    for (int k = 0; k < 3; k++)
        if (c.cf.simBoxPBC[k]) {
            double L = c.cf.simBoxHigh[k] - c.cf.simBoxLow[k];
            d[k] -= L * std::round(d[k] / L);
        }
    return d;
}

static void compare(const Case &c, const std::vector<Sylinder> &got, const std::vector<Sylinder> &ref, bool moves, double tol, const char *when) {
    VP_CHECK(got.size() == ref.size(), "%s: %zu particles, the run had %zu", when, got.size(), ref.size());
    std::map<int, const Sylinder *> m;
    for (auto &a : ref)
        m[a.gid] = &a;
    std::set<int> seen;
    for (auto &a : got) {
        if (!m.count(a.gid) || !seen.insert(a.gid).second) {
            vp::fail("%s: particle %d is unknown or twice there", when, a.gid);
            continue;
        }
        const Sylinder &b = *m[a.gid];
        VP_CHECK(a.group == b.group && a.isImmovable == b.isImmovable, "%s: particle %d group %d immovable %d, was %d %d", when, a.gid, a.group, (int)a.isImmovable, b.group,
                 (int)b.isImmovable);
        VP_CHECK(vp::near(a.radius, b.radius, 1e-6) && vp::near(a.length, b.length, 1e-6) && vp::near(a.radiusCollision, b.radiusCollision, 1e-6) &&
                     vp::near(a.lengthCollision, b.lengthCollision, 1e-6),
                 "%s: particle %d sizes %g %g %g %g, were %g %g %g %g", when, a.gid, a.radius, a.length, a.radiusCollision, a.lengthCollision, b.radius, b.length,
                 b.radiusCollision, b.lengthCollision);
        if (moves) {
            Evec3 d = delta(c, a.pos, b.pos);
            VP_CHECK(d.norm() <= tol, "%s: particle %d is %g away from where it was", when, a.gid, d.norm());
            double da = (sys::axis(a.orientation) - sys::axis(b.orientation)).norm();
            VP_CHECK(da <= 10 * tol, "%s: axis of particle %d differs by %g", when, a.gid, da);
        }
    }
}

static void restartPhase() {
    int id = 0;
    for (auto &c : cases()) {
        const std::string w = vp::fmt("../w%d/", id);
        int snaps = (c.steps - 1) / c.every + 1;
        std::multimap<int, int> fwd, rev;
        for (auto &l : c.l) {
            fwd.insert({l.prev, l.next});
            rev.insert({l.next, l.prev});
        }
        for (int k = 0; k < snaps; k++)
            for (int mode = 0; mode < 3; mode++) {
                // 0: continue to the end; 1: without the Euler step, the state as written; 2: restart again from every snapshot written since
                std::string key = vp::fmt("ranks%d %s snapshot%d mode%d", sys::nproc, c.name.c_str(), k, mode);
                if (!vp::begin(key))
                    continue;
                vp::nontrivial();
                cdir(vp::fmt("r%d_%d_%d_%d", sys::nproc, id, k, mode), true);
                std::map<std::string, std::string> before;
                if (sys::rank == 0) {
                    mkdir("result", 0755);
                    for (auto &f : resultFiles(w + "result")) {
                        // the snapshots complete at that time
                        int n;
                        size_t u = f.find_last_of('_');
                        if (u == std::string::npos || sscanf(f.c_str() + u, "_%d.", &n) != 1 || n > k)
                            continue;
                        mkdir(("result/" + f.substr(0, f.find('/'))).c_str(), 0755);
                        std::string t = io::slurp(w + "result/" + f);
                        dump("result/" + f, std::vector<char>(t.begin(), t.end()));
                        before["result/" + f] = t;
                    }
                    std::string t = io::slurp(w + vp::fmt("rec%d", k));
                    dump("TimeStepInfo.txt", std::vector<char>(t.begin(), t.end()));
                    vp::count("snapshot_files", before.size());
                }
                MPI_Barrier(MPI_COMM_WORLD);
                auto rec = io::info("TimeStepInfo.txt");
                VP_CHECK(rec.ok && (int)rec.snap == k && (int)rec.step == k * c.every, "record of snapshot %d is step %lu snapshot %lu", k, rec.step, rec.snap);
                int st = k * c.every;
                std::set<unsigned long> seeds{rec.seed};
                auto cf = c.cf;
                cf.rngSeed = 99999; // the seed of the configuration is not the one of the restart
                auto boot = [&]() {
                    std::unique_ptr<SylinderSystem> s(new SylinderSystem());
                    char a0[] = "x";
                    char *av[] = {a0, nullptr};
                    s->reinitialize(cf, "TimeStepInfo.txt", 1, av, mode != 1);
                    return s;
                };
                auto s = boot();
                auto p = sys::particles(*s);
                vp::S().states++;
                vp::S().traces++;
                // one owner per rank and all over the ranks: nothing lost
                std::multimap<int, int> gf, gr;
                for (auto &x : s->getLinkMap())
                    gf.insert(x);
                for (auto &x : s->getLinkReverseMap())
                    gr.insert(x);
                VP_CHECK(gf.size() == fwd.size() && std::is_permutation(gf.begin(), gf.end(), fwd.begin()), "%zu links after restart, %zu before", gf.size(), fwd.size());
                VP_CHECK(gr.size() == rev.size() && std::is_permutation(gr.begin(), gr.end(), rev.begin()), "%zu reverse links after restart, %zu before", gr.size(), rev.size());
                VP_CHECK(s->getStepCount() == st + 1, "restart of step %d goes on with step %d", st, s->getStepCount());
                VP_CHECK(s->getSnapID() == k + 1, "restart of snapshot %d goes on with snapshot %d", k, s->getSnapID());
                auto truth = load<Sylinder>(w + vp::fmt("truth%d", st));
                auto vel = [&](const std::vector<Sylinder> &q) {
                    std::map<int, const Sylinder *> m;
                    for (auto &a : truth)
                        m[a.gid] = &a;
                    for (auto &a : q)
                        if (m.count(a.gid))
                            for (int d = 0; d < 3; d++) {
                                double tv = 1e-6 * (1 + std::fabs(m[a.gid]->vel[d])), to = 1e-6 * (1 + std::fabs(m[a.gid]->omega[d]));
                                VP_CHECK(vp::near(a.vel[d], m[a.gid]->vel[d], tv) && vp::near(a.omega[d], m[a.gid]->omega[d], to),
                                         "particle %d restored with velocity %g rotation %g, had %g %g", a.gid, a.vel[d], a.omega[d], m[a.gid]->vel[d], m[a.gid]->omega[d]);
                            }
                };
                vel(p);
                if (mode == 1) {
                    // the state before that step: undo the translation
                    auto t = truth;
                    for (auto &a : t)
                        for (int d = 0; d < 3; d++)
                            a.pos[d] -= c.cf.dt * a.vel[d];
                    compare(c, p, t, false, 0, "as written");
                    std::map<int, const Sylinder *> m;
                    for (auto &a : t)
                        m[a.gid] = &a;
                    for (auto &a : p)
                        if (m.count(a.gid)) {
                            Evec3 d = delta(c, a.pos, m[a.gid]->pos);
                            VP_CHECK(d.norm() < 1e-5, "as written: particle %d is %g off", a.gid, d.norm());
                        }
                } else {
                    compare(c, p, truth, true, 1e-5, "restart");
                    int snap = k + 1;
                    while (st + 1 < c.steps) {
                        st++;
                        bool w2 = st % c.every == 0;
                        VP_CHECK(s->getIfWriteResultCurrentStep() == w2, "snapshot schedule after the restart differs at step %d", st);
                        drive(*s, c);
                        MPI_Barrier(MPI_COMM_WORLD);
                        auto q = sys::particles(*s);
                        vp::S().states++;
                        vp::S().transitions++;
                        auto tr = load<Sylinder>(w + vp::fmt("truth%d", st));
                        compare(c, q, tr, c.exact, 2e-4, vp::fmt("step %d", st).c_str());
                        if (w2) {
                            auto r = io::info("TimeStepInfo.txt");
                            VP_CHECK(r.ok && (int)r.step == st && (int)r.snap == snap, "step %d after restart: record of step %lu snapshot %lu instead of snapshot %d", st,
                                     r.step, r.snap, snap);
                            bool again = mode == 2;
                            if (snap == k + 1 || again)
                                VP_CHECK(!seeds.count(r.seed), "the seed %lu of the restart was used before", r.seed);
                            seeds.insert(r.seed);
                            auto a = io::ascii(io::find(vp::fmt("SylinderAscii_%d.dat", snap)));
                            VP_CHECK(a.ok && a.rows.size() == c.p.size() && a.links.size() == c.l.size() && vp::near(a.time, st * c.cf.dt, 1e-6),
                                     "snapshot %d after the restart: %zu particles, %zu links, time %g %s", snap, a.rows.size(), a.links.size(), a.time, a.err.c_str());
                            snap++;
                            if (again) {
                                s.reset();
                                s = boot();
                                VP_CHECK(s->getStepCount() == st + 1 && s->getSnapID() == snap, "second restart goes on with step %d snapshot %d instead of %d %d",
                                         s->getStepCount(), s->getSnapID(), st + 1, snap);
                                compare(c, sys::particles(*s), tr, c.exact, 2e-4, vp::fmt("restart again at step %d", st).c_str());
                                vp::count("restarts_again");
                            }
                        }
                    }
                    vp::outcome(vp::fmt("%s %d %d", c.name.c_str(), k, snap));
                }
                s.reset();
                if (sys::rank == 0)
                    for (auto &f : before)
                        VP_CHECK(io::slurp(f.first) == f.second, "the existing file %s was changed", f.first.c_str());
                MPI_Barrier(MPI_COMM_WORLD);
                if (sys::rank == 0) {
                    io::clean();
                    unlink("pos.dat");
                }
                cdir("..", false);
            }
        id++;
    }
}

int main(int argc, char **argv) {
    bool write = false;
    for (int i = 1; i < argc; i++)
        write |= !strcmp(argv[i], "--write");
    sys::start(argc, argv);
    if (write)
        writePhase();
    else
        restartPhase();
    vp::done();
    sys::stop();
    return 0;
}
