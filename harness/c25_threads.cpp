// C25: every parallel region of the library under a controlled OpenMP runtime (lib/omprt): all orders of the threads, all schedules of the
// synchronised regions up to a preemption bound, all small team sizes; data races and differing results are violations.
//   --T n      team size        --write   store the results as the reference of the other team sizes (T = 1)
#include <fstream>
#include <functional>
#include <unordered_map>

#include "logsink.hpp"
#include "sys.hpp"

#include "mp.hpp"

#include "Collision/CPSolver.hpp"
#include "Constraint/ConstraintSolver.hpp"
#include "MPI/CommMPI.hpp"
#include "MPI/MixPairInteraction.hpp"
#include "Trilinos/TpetraUtil.hpp"
#include "Util/SortUtil.hpp"
#include "Util/TRngPool.hpp"
#include "blocks.hpp"
#include "omprt.hpp"
#include "vtk.hpp"
using sys::Part;

// name -> numbers; a name that starts with '=' must agree exactly, with '~' to the accuracy of the solvers ('~~': as printed), others to rounding;
// '#' : depends on the number of threads (random streams)
typedef std::map<std::string, std::vector<double>> R;
static int T = 1;

static double g01(int k) {
    double x = std::sin(12.9898 * (k + 1) + 0.7) * 43758.5453;
    return x - std::floor(x);
}

// ---------------------------------------------------------------------------------------------- the whole system
static void collect(SylinderSystem &s, R &r, const std::string &tag, const std::string &pre, const std::map<int, int> &names = {}) {
    auto pp = sys::particles(s);
    for (auto &p : pp)
        if (names.count(p.gid))
            p.gid = names.at(p.gid);
    std::sort(pp.begin(), pp.end(), [](const Sylinder &a, const Sylinder &b) { return a.gid < b.gid; });
    auto &I = r["=" + (pre.find('#') != std::string::npos ? std::string("#") : std::string()) + tag + "ids"];
    auto &X = r[pre + tag + "state"], &V = r[pre + tag + "motion"];
    for (auto &p : pp) {
        for (double v : {(double)p.gid, (double)p.group, (double)p.isImmovable})
            I.push_back(v);
        for (int k = 0; k < 3; k++)
            X.push_back(p.pos[k]);
        for (int k = 0; k < 3; k++)
            X.push_back(sys::axis(p.orientation)[k]);
        for (double v : {p.radius, p.length, p.radiusCollision, p.lengthCollision, tag[0] == 's' ? p.colBuf : 0})
            X.push_back(v);
        for (const double *a : {p.vel, p.omega, p.velNonB, p.omegaNonB, p.velBrown, p.omegaBrown, p.velCol, p.omegaCol, p.velBi, p.omegaBi, p.force,
                                p.torque, p.forceNonB, p.torqueNonB, p.forceCol, p.torqueCol, p.forceBi, p.torqueBi})
            for (int k = 0; k < 3; k++)
                V.push_back(a[k]);
    }
    if (tag[0] == 'r')
        V.clear(); // velocities and forces are those of the next step
    auto bb = sys::blocks(s);
    std::sort(bb.begin(), bb.end(), [](const ConstraintBlock &a, const ConstraintBlock &b) {
        auto k = [](const ConstraintBlock &x) { return std::make_tuple(x.bilateral, x.oneSide, x.gidI, x.gidJ, std::floor(x.delta0 * 1e4), x.normI[0]); };
        return k(a) < k(b);
    });
    auto &B = r["=" + (pre.find('#') != std::string::npos ? std::string("#") : std::string()) + tag + "constraints"];
    auto &G = r[pre + tag + "constraint values"];
    for (auto &b : bb) {
        for (double v : {(double)b.gidI, (double)b.gidJ, (double)b.oneSide, (double)b.bilateral})
            B.push_back(v);
        G.push_back(b.delta0), G.push_back(b.gamma), G.push_back(b.kappa);
        for (int k = 0; k < 3; k++)
            for (const double *a : {b.normI, b.normJ, b.posI, b.posJ, b.labI, b.labJ})
                G.push_back(a[k]);
        for (int k = 0; k < 9; k++)
            G.push_back(b.stress[k]);
    }
}
static void logs(R &r, const std::string &tag, const std::string &pre) {
    for (const char *l : {"Order P", "Volume Sylinder", "Volume fraction"}) {
        auto v = logsink::numbers(l);
        r[pre + tag + l] = v; // printed with few digits
    }
}
static void observe(SylinderSystem &s, R &r, const std::string &tag, const std::string &pre) {
    double lo[3], hi[3], glo[3], ghi[3];
    s.calcBoundingBox(lo, hi, glo, ghi);
    for (int k = 0; k < 3; k++) {
        r[pre + tag + "box"].push_back(glo[k]);
        r[pre + tag + "box"].push_back(ghi[k]);
    }
    logsink::lines.clear();
    spdlog::set_level(spdlog::level::info);
    s.runConfig.logLevel = spdlog::level::info;
    s.calcOrderParameter();
    s.calcVolFrac();
    s.runConfig.logLevel = spdlog::level::off;
    spdlog::set_level(spdlog::level::off);
    if (sys::rank == 0)
        logs(r, tag, "~" + pre);
}
static std::vector<Part> crowd(int n, int var, bool flat) {
    std::vector<Part> p(n);
    for (int i = 0; i < n; i++) {
        p[i].gid = (7 * i + 3) % n + 5;
        p[i].group = i % 3;
        p[i].radius = 0.2 + 0.05 * (i % 3);
        p[i].length = i % 4 == 3 ? 0.2 : 0.5 + 0.3 * (i % 3);
        p[i].imm = i % 6 == 5;
        // rows of touching bodies, rows apart
        int row = i / 4, k = i % 4;
        double gap = (i + var) % 3 == 0 ? -0.03 : 0.06;
        double e = 0.05 * g01(i + 7 * var);
        p[i].pos = flat ? Evec3(1.0 + 1.9 * (row % 3) + e, 0.8 + 2.6 * (row / 3) + 0.55 * k + gap * (k % 2), 3)
                        : Evec3(1.2 + 2.0 * (row % 2) + e, 1.0 + 0.55 * k + gap * (k % 2), 1.2 + 1.5 * (row / 2) + 0.05 * g01(i + 50));
        p[i].q = sys::dirq(1, 0.15 * (g01(i + 90 + var) - 0.5), flat ? 0 : 0.15 * (g01(i + 130) - 0.5));
    }
    if (!flat)
        p[1].pos[2] = p[1].radius + 0.01;
    return p;
}
static R sysStep(int var) {
    R r;
    bool flat = var == 1 || var == 3, noisy = var >= 2;
    auto cf = sys::config();
    cf.simBoxPBC[0] = var == 0;
    cf.simBoxPBC[1] = var == 2;
    for (int k = 0; k < 3; k++)
        cf.simBoxHigh[k] = 6;
    cf.monolayer = flat;
    cf.KBT = noisy ? 0.01 : 0;
    cf.dt = 0.002;
    cf.conResTol = 1e-9;
    cf.conMaxIte = 3000;
    if (!flat) {
        double c[3] = {0, 0, 0}, n[3] = {0, 0, 1};
        cf.boundaryPtr.push_back(std::make_shared<Wall>(c, n));
        double sc[3] = {3, 3, 3};
        cf.boundaryPtr.push_back(std::make_shared<SphereShell>(sc, 2.2, true));
    }
    const std::string pre = noisy ? "~#" : "~";
    auto p = crowd(noisy ? 9 : 17, var, flat);
    auto s = sys::make(cf, p, {{p[0].gid, p[1].gid}, {p[1].gid, p[2].gid}, {p[4].gid, p[5].gid}});
    collect(*s, r, "start ", noisy ? "#" : "");
    observe(*s, r, "start ", noisy ? "#" : "");
    for (int st = 0; st < 2; st++) {
        s->prepareStep();
        int n = s->getContainer().getNumberOfParticleLocal();
        std::vector<double> f(6 * n), v(6 * n);
        for (int i = 0; i < n; i++)
            for (int k = 0; k < 6; k++)
                f[6 * i + k] = 0.5 * (g01(6 * s->getContainer()[i].gid + k) - 0.5), v[6 * i + k] = 0.2 * (g01(6 * s->getContainer()[i].gid + k + 400) - 0.5);
        s->setForceNonBrown(f);
        s->setVelocityNonBrown(v);
        s->runStep();
        collect(*s, r, "step" + std::to_string(st) + " ", pre);
        s->calcConStress();
        Emat3 uni, bi;
        ConstraintCollector C;
        C.constraintPoolPtr = std::make_shared<ConstraintBlockPool>(s->getConstraintPoolNonConst());
        C.sumLocalConstraintStress(uni, bi, false);
        for (int k = 0; k < 9; k++)
            r[pre + "stress" + std::to_string(st)].push_back(uni(k / 3, k % 3)), r[pre + "stress" + std::to_string(st)].push_back(bi(k / 3, k % 3));
        observe(*s, r, "after" + std::to_string(st) + " ", pre);
    }
    return r;
}
// many particles: every thread gets groups of the particle tree
static R sysMany(bool step) {
    R r;
    auto cf = sys::config();
    cf.simBoxPBC[0] = true;
    cf.dt = 0.002;
    cf.conMaxIte = 12; // the first iterations: the same for every schedule, to rounding
    for (int k = 0; k < 3; k++)
        cf.simBoxLow[k] = 0, cf.simBoxHigh[k] = 8;
    const int n = 640;
    std::vector<Part> p(n);
    std::vector<Link> l;
    for (int i = 0; i < n; i++) {
        p[i].gid = (7 * i + 3) % n + 5;
        p[i].group = i % 3;
        p[i].radius = 0.2 + 0.05 * (i % 3);
        p[i].length = i % 4 == 3 ? 0.2 : 0.4 + 0.2 * (i % 3);
        double f[3] = {g01(3 * i + 2000), g01(3 * i + 2001), g01(3 * i + 2002)};
        for (int k = 0; k < 3; k++)
            p[i].pos[k] = 8 * f[k];
        p[i].q = sys::dirq(g01(i + 5000) - 0.5, g01(i + 6000) - 0.5, g01(i + 7000) - 0.5);
        if (i % 5 == 4)
            l.push_back(Link{p[i - 1].gid, p[i].gid});
    }
    double c[3] = {0, 0, 0}, nn[3] = {0, 0, 1};
    cf.boundaryPtr.push_back(std::make_shared<Wall>(c, nn));
    auto s = sys::make(cf, p, l);
    s->prepareStep();
    if (step) {
        const int nl = s->getContainer().getNumberOfParticleLocal();
        std::vector<double> f(6 * nl), v(6 * nl);
        for (int i = 0; i < 6 * nl; i++)
            f[i] = g01(6 * s->getContainer()[i / 6].gid + i % 6) - 0.5, v[i] = 0.2 * (g01(6 * s->getContainer()[i / 6].gid + i % 6 + 400) - 0.5);
        s->setForceNonBrown(f);
        s->setVelocityNonBrown(v);
        s->runStep();
        collect(*s, r, "many ", "~");
        observe(*s, r, "many ", "~");
        return r;
    }
    s->collectPairCollision();
    s->collectBoundaryCollision();
    s->collectLinkBilateral();
    collect(*s, r, "pairs ", "");
    vp::count("blocks_of_the_large_system", sys::blocks(*s).size());
    return r;
}
static std::string slurp(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
}
static R sysInit(int var) { // particles drawn from the configuration: per-thread random streams
    R r;
    auto cf = sys::config();
    cf.sylinderNumber = 19;
    cf.sylinderLength = var ? 0.1 : 0.8;
    cf.sylinderLengthSigma = var ? 0.3 : -1;
    cf.sylinderDiameter = 0.4;
    cf.initCircularX = var == 1;
    for (int k = 0; k < 3; k++)
        cf.initOrient[k] = var ? 2 : 0.5 - 0.5 * k, cf.simBoxHigh[k] = cf.initBoxHigh[k] = 9;
    std::unique_ptr<SylinderSystem> s(new SylinderSystem());
    char a0[] = "x";
    char *av[] = {a0, nullptr};
    s->initialize(cf, "", 1, av);
    collect(*s, r, "init ", "#");
    // growth: new particles and links
    std::vector<Sylinder> nw;
    for (int i = 0; i < (sys::rank == 0 ? 5 : 0); i++) {
        double pos[3] = {1 + i * 1.1, 2, 3}, q[4] = {0, 0, 0, 1};
        nw.push_back(Sylinder(-1, 0.2, 0.2, 0.5, 0.5, pos, q));
    }
    auto ids = s->addNewSylinder(nw);
    std::vector<Link> nl;
    for (size_t i = 0; sys::rank == 0 && i + 1 < ids.size(); i++) {
        Link l;
        l.prev = ids[i], l.next = ids[i + 1];
        nl.push_back(l);
    }
    s->addNewLink(nl);
    ids.resize(5);
    MPI_Bcast(ids.data(), 5, MPI_INT, 0, MPI_COMM_WORLD);
    std::map<int, int> names; // the ids are dealt out at random
    for (size_t i = 0; i < ids.size(); i++)
        names[ids[i]] = 1000 + (int)i;
    std::sort(ids.begin(), ids.end());
    for (int i : ids)
        r["=new ids"].push_back(i);
    s->decomposeDomain();
    s->exchangeSylinder();
    collect(*s, r, "grown ", "#", names);
    observe(*s, r, "grown ", "#");
    auto &m = s->getLinkMap();
    std::vector<std::pair<int, int>> L;
    for (auto &l : m)
        L.push_back({names[l.first], names[l.second]});
    std::sort(L.begin(), L.end());
    for (auto &l : L)
        r["=links"].push_back(l.first), r["=links"].push_back(l.second);
    return r;
}
static R sysFiles() { // what a snapshot holds
    R r;
    auto cf = sys::config();
    cf.simBoxPBC[0] = true;
    auto p = crowd(13, 0, false);
    std::vector<Link> l = {{p[0].gid, p[1].gid}, {p[4].gid, p[5].gid}};
    auto s = sys::make(cf, p, l);
    s->prepareStep();
    s->runStep();
    s->writeResult();
    for (const char *f : {"SylinderAscii_1.dat", "Sylinder_r0_1.vtp", "ConBlock_r0_1.vtp", "SylinderAscii_0.dat", "Sylinder_r0_0.vtp", "ConBlock_r0_0.vtp"}) {
        std::string t;
        for (const char *d : {"./result/result0-399/", "./result/"})
            if (t.empty())
                t = slurp(std::string(d) + f);
        uint64_t h = f[0] == 'S' ? vp::fnv(t) : 0; // the order of the constraints is that of the schedule
        r[std::string(f[0] == 'S' && strstr(f, "_0") ? "=" : "=#") + f] = {(double)t.size(), (double)(h >> 32), (double)(h & 0xffffffff)};
    }
    return r;
}

static R sysRestart() {
    R r;
    auto cf = sys::config();
    cf.simBoxPBC[0] = true;
    cf.timeSnap = cf.dt;
    auto p = crowd(11, 0, false);
    char a0[] = "x";
    char *av[] = {a0, nullptr};
    {
        auto s = sys::make(cf, p, {{p[0].gid, p[1].gid}, {p[4].gid, p[5].gid}});
        for (int k = 0; k < 2; k++) {
            s->prepareStep();
            s->runStep();
        }
    }
    std::unique_ptr<SylinderSystem> s(new SylinderSystem());
    s->reinitialize(cf, "TimeStepInfo.txt", 1, av, true);
    r["=counters"] = {(double)s->getStepCount(), (double)s->getSnapID()};
    collect(*s, r, "restarted ", "~");
    s->prepareStep();
    s->runStep();
    collect(*s, r, "steps after restart ", "~");
    return r;
}
// ---------------------------------------------------------------------------------------------- components
static R problems() { // the random problems of the solver tests: only races matter
    R r;
    CPSolver a(6, 1.0);
    BCQPSolver b(6, 1.0);
    r["=done"] = {1};
    return r;
}
static R sorting() {
    R r;
    for (int n : {0, 1, 2, 5, 13, 20}) {
        std::vector<int> t(n);
        std::vector<double> d(n);
        std::vector<std::pair<int, int>> e(n);
        for (int i = 0; i < n; i++)
            t[i] = (5 * i + n) % 4, d[i] = i, e[i] = {i, -i};
        auto u = t;
        sortDataWithTag(t, d);
        sortDataWithTag(u, e);
        for (int i = 0; i < n; i++)
            for (double v : {(double)t[i], d[i], (double)u[i], (double)e[i].first, (double)e[i].second})
                r["=sorted" + std::to_string(n)].push_back(v);
    }
    return r;
}
struct Msg {
    int a;
    double b;
};
static R messages() {
    R r;
    CommMPI c;
    for (int rep = 0; rep < 3; rep++) {
        int n = 3 + 7 * rep + sys::rank;
        std::vector<int> d(n), src;
        std::vector<Msg> m(n), in;
        for (int i = 0; i < n; i++)
            d[i] = (i * 3 + rep) % sys::nproc, m[i] = {100 * sys::rank + i, i * 0.5};
        c.exchangeAllToAllV(d, m, src, in);
        for (size_t i = 0; i < in.size(); i++)
            for (double v : {(double)src[i], (double)in[i].a, in[i].b})
                r["=received"].push_back(v);
    }
    return r;
}
static R rng() {
    R r;
    TRngPool pool(77);
    std::vector<double> u(3 * T);
#pragma omp parallel
    {
        int t = omp_get_thread_num();
        u[3 * t] = pool.getU01();
        u[3 * t + 1] = pool.getN01();
        u[3 * t + 2] = pool.getU01();
    }
    r["=#streams"] = u;
    return r;
}
static R vectors() {
    R r;
    auto comm = getMPIWORLDTCOMM();
    for (int n : {0, 1, 7, 2500}) {
        std::vector<double> v(n);
        for (int i = 0; i < n; i++)
            v[i] = g01(i);
        auto tv = getTVFromVector(v, comm);
        auto a = tv->getLocalView<Kokkos::HostSpace>();
        for (int i = 0; i < n; i++)
            r["=vector" + std::to_string(n)].push_back(a(i, 0));
    }
    return r;
}
static R lcp(int which) {
    R r;
    const int n = 9;
    dense::Mat G(n, n);
    dense::Vec b(n);
    for (int i = 0; i < n; i++) {
        b[i] = g01(i + 300) - 0.6;
        for (int j = 0; j < n; j++)
            G(i, j) = g01(20 * i + j) - 0.5;
    }
    dense::Mat A = G.transpose() * G + 0.3 * dense::Mat::Identity(n, n);
    std::vector<int> part(sys::nproc, n / sys::nproc);
    part[0] += n % sys::nproc;
    dense::Layout L(part);
    dense::Op op(L, A);
    Teuchos::RCP<const TOP> Ar = Teuchos::rcp(static_cast<const TOP *>(&op), false);
    Teuchos::RCP<const TV> br = L.vec(b).getConst();
    auto x = L.vec(dense::Vec::Zero(n));
    IteHistory h;
    if (which < 3) {
        CPSolver S(Ar, br);
        if (which == 0)
            S.LCP_APGD(x, 1e-8, 300, h);
        if (which == 1)
            S.LCP_BBPGD(x, 1e-8, 300, h);
        if (which == 2)
            S.LCP_mmNewton(x, 1e-8, 100, h);
    } else {
        BCQPSolver S(Ar, br);
        S.setLowerBound(L.vec(dense::Vec::Zero(n)));
        S.setUpperBound(L.vec(dense::Vec::Constant(n, 0.3)));
        S.prepareSolver();
        if (which == 3)
            S.solveAPGD(x, 1e-8, 300, h);
        else
            S.solveBBPGD(x, 1e-8, 300, h);
    }
    auto v = L.get(x.getConst());
    for (int i = 0; i < n; i++)
        r["~x"].push_back(v[i]);
    return r;
}
static R assembly() {
    R r;
    std::vector<blocks::Item> it;
    for (int k = 0; k < 14; k++)
        it.push_back({0, k % 5, blocks::make(k % 6, (k + 1 + k % 3) % 6 == k % 6 ? (k + 1) % 6 : (k + 1 + k % 3) % 6, k % 5, 17 * k, 0.1 * g01(k) - 0.03, 0.5)});
    ConstraintCollector C;
    blocks::fill(C, it, 5);
    std::vector<int> part(sys::nproc, 0);
    part[0] = 36;
    dense::Layout LM(part);
    Teuchos::RCP<TCMAT> DT;
    Teuchos::RCP<TV> d0, ik, bi, gu;
    C.buildConstraintMatrixVector(LM.map, DT, d0, ik, bi, gu);
    auto val = [&](const Teuchos::RCP<TV> &v, const char *nm) {
        auto a = v->getLocalView<Kokkos::HostSpace>();
        for (size_t i = 0; i < v->getLocalLength(); i++)
            r[nm].push_back(a(i, 0));
    };
    val(d0, "=delta0"), val(ik, "=1/kappa"), val(bi, "=flag"), val(gu, "=guess");
    dense::Mat M = blocks::mobility(6, true);
    dense::Op mob(LM, M);
    Teuchos::RCP<TOP> mr = Teuchos::rcp(static_cast<TOP *>(&mob), false);
    ConstraintOperator A(mr, DT, ik);
    auto x = Teuchos::rcp(new TV(A.getDomainMap(), true)), y = Teuchos::rcp(new TV(A.getDomainMap(), true));
    {
        auto a = x->getLocalView<Kokkos::HostSpace>();
        x->modify<Kokkos::HostSpace>();
        for (size_t i = 0; i < x->getLocalLength(); i++)
            a(i, 0) = g01(i + 60) - 0.4;
    }
    A.apply(*x, *y, Teuchos::NO_TRANS, 0.7, 0);
    val(y, "A x");
    C.writeBackGamma(x.getConst());
    for (auto &q : *C.constraintPoolPtr)
        for (auto &b : q)
            r["=gamma"].push_back(b.gamma);
    Emat3 u, w;
    for (int os = 0; os < 2; os++) {
        C.sumLocalConstraintStress(u, w, os);
        for (int k = 0; k < 9; k++)
            r["stress sum"].push_back(u(k / 3, k % 3)), r["stress sum"].push_back(w(k / 3, k % 3));
    }
    std::vector<int> sz, ix;
    C.buildConIndex(sz, ix);
    for (int v : sz)
        r["=sizes"].push_back(v);
    for (int v : ix)
        r["=index"].push_back(v);
    r["=count"] = {(double)C.getLocalNumberOfConstraints()};
    mkdir("con", 0755);
    C.writeVTP("./con/", "", "0", sys::rank);
    std::string t = slurp(vp::fmt("./con/ConBlock_r%d_0.vtp", sys::rank));
    uint64_t h = vp::fnv(t);
    r["=vtp"] = {(double)t.size(), (double)(h >> 32), (double)(h & 0xffffffff)};
    C.clear();
    r["=cleared"] = {(double)C.getLocalNumberOfConstraints()};
    return r;
}
struct P3 {
    int gid;
    double RSearch, pos[3];
    double getRSearch() const { return RSearch; }
    PS::F64vec3 getPos() const { return PS::F64vec3(pos[0], pos[1], pos[2]); }
    void setPos(const PS::F64vec3 &p) { pos[0] = p.x, pos[1] = p.y, pos[2] = p.z; }
};
struct Src : P3 {
    double w;
    void copyFromFP(const Src &o) { *this = o; }
};
struct Trg : P3 {
    void copyFromFP(const Trg &o) { *this = o; }
};
struct Frc {
    int n = 0, gid = -1;
    double w = 0;
    void clear() { n = 0, gid = -1, w = 0; }
};
struct Calc {
    void operator()(const MixEPI<Trg> *const t, const PS::S32 nt, const MixEPJ<Src> *const s, const PS::S32 ns, Frc *const f) {
        for (int i = 0; i < nt; i++) {
            if (!t[i].trgFlag)
                continue;
            f[i].gid = t[i].epTrg.gid;
            auto x = t[i].getPos();
            for (int j = 0; j < ns; j++) {
                if (!s[j].srcFlag)
                    continue;
                auto y = s[j].getPos();
                double rr = std::max(t[i].getRSearch(), s[j].getRSearch());
                if (x.getDistanceSQ(y) < rr * rr)
                    f[i].n++, f[i].w += s[j].epSrc.w;
            }
        }
    }
};
static R mixed(int nt, int ns) {
    R r;
    PS::ParticleSystem<Trg> st;
    PS::ParticleSystem<Src> ss;
    st.initialize();
    ss.initialize();
    PS::DomainInfo d;
    d.initialize();
    d.setBoundaryCondition(PS::BOUNDARY_CONDITION_PERIODIC_X);
    d.setPosRootDomain(PS::F64vec3(0, 0, 0), PS::F64vec3(4, 4, 4));
    st.setNumberOfParticleLocal(nt);
    ss.setNumberOfParticleLocal(ns);
    for (int i = 0; i < nt; i++) {
        st[i].gid = i, st[i].RSearch = 0.5 + 0.5 * g01(i);
        for (int k = 0; k < 3; k++)
            st[i].pos[k] = 4 * g01(3 * i + k + 800);
    }
    for (int i = 0; i < ns; i++) {
        ss[i].gid = 100 + i, ss[i].RSearch = 0.5 + 0.7 * g01(i + 40), ss[i].w = g01(i + 900);
        for (int k = 0; k < 3; k++)
            ss[i].pos[k] = 4 * g01(3 * i + k + 1200);
    }
    d.decomposeDomainAll(ss);
    st.exchangeParticle(d);
    ss.exchangeParticle(d);
    MixPairInteraction<Trg, Src, Trg, Src, Frc> mix;
    mix.initialize();
    mix.updateSystem(st, ss, d);
    mix.updateTree();
    Calc c;
    mix.computeForce(c, d);
    auto &f = mix.getForceResult();
    std::vector<Frc> o(f.begin(), f.end());
    for (auto &x : o)
        r["=hits"].push_back(x.gid), r["=hits"].push_back(x.n), r["weights"].push_back(x.w);
    return r;
}

// ---------------------------------------------------------------------------------------------- exploration
struct Scenario {
    std::string name;
    std::function<R()> run;
    bool big;
    bool huge = false; // few orders, few schedules
};
static bool dependsOnT(const std::string &n) { return n.find('#') != std::string::npos && n.find('#') < 3; }
static void compare(const R &a, const R &b, const char *what, bool acrossT) {
    for (auto &kv : a) {
        if (acrossT && dependsOnT(kv.first))
            continue;
        auto it = b.find(kv.first);
        VP_CHECK(it != b.end() && it->second.size() == kv.second.size(), "%s: %s has %zu numbers, %zu %s", kv.first.c_str(), "this schedule",
                 kv.second.size(), it == b.end() ? 0 : it->second.size(), what);
        if (it == b.end())
            continue;
        bool exact = kv.first.find('=') != std::string::npos, solver = kv.first[0] == '~';
        for (size_t i = 0; i < kv.second.size() && i < it->second.size(); i++) {
            double x = kv.second[i], y = it->second[i];
            double tol = exact ? 0 : (kv.first.compare(0, 2, "~~") == 0 ? 2e-5 : solver ? 1e-6 : 1e-9) * (1 + std::fabs(y));
            bool ok = x == y || (x != x && y != y) || std::fabs(x - y) <= tol;
            VP_CHECK(ok, "%s[%zu] is %.17g, but %.17g %s", kv.first.c_str(), i, x, y, what);
            if (!ok)
                break;
        }
    }
}
static bool badRaces() {
    for (auto &r : omprt::races)
        vp::fail("%s", vp::fmt("data race in %s: %s", r.region.substr(0, 300).c_str(), r.what.substr(0, 700).c_str()).c_str());
    return !omprt::races.empty();
}
static uint64_t hashR(const R &r) {
    uint64_t h = 1;
    for (auto &kv : r) {
        h = vp::mix(h, vp::fnv(kv.first));
        h = vp::mix(h, vp::fnv(kv.second.data(), kv.second.size() * 8));
    }
    return h;
}
static R execute(const Scenario &s, const omprt::Policy &p) {
    omprt::nAccess = omprt::nSwitch = omprt::nSync = omprt::nBarrier = omprt::nOverflow = 0;
    omprt::begin(p);
    R r = s.run();
    return r;
}
static omprt::Policy base() {
    omprt::Policy p;
    p.threads = T;
    return p;
}
static void tally() {
    vp::S().transitions += omprt::nAccess;
    vp::S().traces++;
    vp::count("switches", omprt::nSwitch);
    vp::count("synchronisation_points", omprt::nSync);
    vp::count("barriers", omprt::nBarrier);
    vp::count("regions_run", omprt::regions.size());
    vp::count("shadow_overflow", omprt::nOverflow);
}
static void store(const std::string &f, const R &r) {
    std::ofstream o(f);
    o.precision(17);
    for (auto &kv : r) {
        o << kv.first << "\n" << kv.second.size() << "\n";
        for (double v : kv.second) {
            uint64_t u;
            memcpy(&u, &v, 8);
            o << u << "\n";
        }
    }
}
static R load(const std::string &f) {
    R r;
    std::ifstream i(f);
    std::string k, l;
    while (std::getline(i, k)) {
        std::getline(i, l);
        auto &v = r[k];
        v.resize(std::stoul(l));
        for (auto &x : v) {
            std::getline(i, l);
            uint64_t u = std::stoull(l);
            memcpy(&x, &u, 8);
        }
    }
    return r;
}

static std::set<std::string> bodies;
static void explore(const Scenario &s, bool write) {
    bool th = vp::S().thorough;
    // reference: threads in ascending order
    bool refCase = vp::begin(s.name + vp::fmt(" T%d ascending", T));
    if (!refCase && !vp::S().only.empty()) {
        // a replay of another case needs the reference, but does not judge it
        std::string pre = s.name + vp::fmt(" T%d ", T);
        if (vp::S().only.compare(0, pre.size(), pre) != 0 && !write)
            return;
    }
    R ref = execute(s, base());
    auto regs = omprt::regions;
    if (write)
        store(vp::fmt("ref.%s.%d", s.name.c_str(), sys::rank), ref);
    if (refCase) {
        badRaces();
        if (!write)
            compare(ref, load(vp::fmt("ref.%s.%d", s.name.c_str(), sys::rank)), "with one thread", true);
        tally();
        vp::nontrivial();
        vp::outcome(hashR(ref));
        for (auto &r : regs)
            vp::S().states++, bodies.insert(r.name);
    }
    auto one = [&](const std::string &key, const omprt::Policy &p) {
        if (!vp::begin(key))
            return false;
        R r = execute(s, p);
        if (!badRaces())
            compare(r, ref, "with the threads in ascending order", false);
        tally();
        vp::nontrivial();
        vp::outcome(vp::mix(hashR(r), vp::fnv(key)));
        vp::S().states += omprt::regions.size();
        return true;
    };
    if (T > 1) {
        // all orders of the threads (all permutations up to 4 threads, rotations and reversals beyond), running on or alternating
        std::vector<std::vector<int>> orders;
        std::vector<int> o(T);
        for (int i = 0; i < T; i++)
            o[i] = i;
        if (s.huge && !th) {
            orders.push_back(o);
            orders.emplace_back(o.rbegin(), o.rend());
        } else if (T <= (s.big && !th ? 3 : 4)) {
            do
                orders.push_back(o);
            while (std::next_permutation(o.begin(), o.end()));
        } else {
            for (int k = 0; k < T; k += s.big ? std::max(1, T / 3) : 1)
                for (int rev = 0; rev < 2; rev++) {
                    std::vector<int> q(T);
                    for (int i = 0; i < T; i++)
                        q[i] = ((rev ? T - 1 - i : i) + k) % T;
                    orders.push_back(q);
                }
        }
        for (size_t k = 0; k < orders.size(); k++)
            for (int alt = 0; alt < 2; alt++) {
                if (k == 0 && !alt)
                    continue; // the reference
                omprt::Policy p = base();
                p.order = orders[k];
                p.alternate = alt;
                std::string key = s.name + vp::fmt(" T%d %s", T, alt ? "alternating" : "order");
                for (int v : orders[k])
                    key += vp::fmt(" %d", v);
                one(key, p);
            }
    }
    // every region with synchronisation: all schedules up to a preemption bound, the other regions in ascending order
    if (sys::nproc == 1 && T >= 2 && T <= (th ? 4 : 3)) {
        const int bound = th ? 3 : 2;
        const long cap = s.huge && !th ? 2 : s.big ? (th ? 150 : T == 2 ? 25 : 12) : (th ? 5000 : 400);
        std::map<std::string, int> seen;
        for (size_t g = 0; g < regs.size(); g++) {
            if (!regs[g].sync || regs[g].threads < 2)
                continue;
            if (seen[regs[g].name]++ >= (s.big ? 1 : 3))
                continue;
            std::vector<int> prefix;
            long n = 0;
            for (;; n++) {
                if (n >= cap) {
                    vp::count("regions_capped");
                    break;
                }
                omprt::Policy p = base();
                p.target = (long)g;
                p.prefix = prefix;
                std::string key = s.name + vp::fmt(" T%d region %zu schedule", T, g);
                for (int c : prefix)
                    key += vp::fmt(" %d", c);
                bool ran = one(key, p);
                if (!ran) { // filtered: a single schedule is replayed
                    if (vp::S().only.find(vp::fmt(" region %zu schedule", g)) == std::string::npos ||
                        vp::S().only.compare(0, s.name.size() + 1, s.name + " ") != 0)
                        break;
                    execute(s, p);
                }
                VP_CHECK(!omprt::diverged, "schedule %s could not be repeated", key.c_str());
                vp::count("region_schedules");
                // next schedule with at most `bound` preemptions
                auto d = omprt::decisions;
                long i = (long)d.size() - 1;
                for (; i >= 0; i--) {
                    int pre = 0;
                    for (long j = 0; j < i; j++)
                        pre += d[j].runnable && d[j].chosen > 0;
                    if (d[i].chosen + 1 < d[i].options && pre + (d[i].runnable ? 1 : 0) <= bound)
                        break;
                }
                if (i < 0)
                    break;
                prefix.clear();
                for (long j = 0; j < i; j++)
                    prefix.push_back(d[j].chosen);
                prefix.push_back(d[i].chosen + 1);
            }
        }
    }
    vp::S().counters["distinct_region_bodies"] = bodies.size();
}

int main(int argc, char **argv) {
    bool write = false;
    std::string pick;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--T"))
            T = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--write"))
            write = true;
        if (!strcmp(argv[i], "--pick"))
            pick = argv[i + 1];
    }
    omprt::setup();
    omprt::begin(base());
    sys::start(argc, argv);
    mp::rank = sys::rank, mp::np = sys::nproc;
    logsink::install();
    spdlog::set_level(spdlog::level::off);
    std::vector<Scenario> all = {
        {"sort", sorting, false},
        {"messages", messages, false},
        {"random", rng, false},
        {"vectors", vectors, false},
        {"lcp-apgd", [] { return lcp(0); }, false},
        {"lcp-bbpgd", [] { return lcp(1); }, false},
        {"lcp-newton", [] { return lcp(2); }, false},
        {"bcqp-apgd", [] { return lcp(3); }, false},
        {"bcqp-bbpgd", [] { return lcp(4); }, false},
        {"assembly", assembly, false},
        {"mixed", [] { return mixed(19, 23); }, true},
        {"mixed many", [] { return mixed(900, 700); }, true, true},
        {"pairs", [] { return sysMany(false); }, true, true},
        {"many", [] { return sysMany(true); }, true, true},
        {"init0", [] { return sysInit(0); }, true},
        {"init1", [] { return sysInit(1); }, true},
        {"files", sysFiles, true},
        {"step0", [] { return sysStep(0); }, true},
        {"step1", [] { return sysStep(1); }, true},
        {"step2", [] { return sysStep(2); }, true},
        {"step3", [] { return sysStep(3); }, true},
        {"restart", sysRestart, true},
        {"problems", problems, false},
    };
    for (auto &s : all)
        if (pick.empty() || pick == s.name) {
            double t0 = omp_get_wtime();
            explore(s, write);
            if (getenv("VP_TIMES"))
                fprintf(stderr, "%s %.2fs runs so far %llu\n", s.name.c_str(), omp_get_wtime() - t0, (unsigned long long)vp::S().evaluations);
        }
    if (getenv("VP_TIMES"))
        for (auto &b : bodies)
            fprintf(stderr, "body %s\n", b.c_str());
    omprt::begin(base());
    sys::stop();
    _exit(0);
}
