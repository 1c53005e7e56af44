// Driver of the real SylinderSystem for the checks: builds systems from an explicit particle list, gathers what they hold over all ranks.
#ifndef VP_SYS_HPP
#define VP_SYS_HPP
#include <fcntl.h>
#include <map>
#include <memory>
#include <mpi.h>
#include <omp.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

#include "Sylinder/SylinderSystem.hpp"
#include "Util/Logger.hpp"

#include "vp.hpp"

namespace sys {

static int rank = 0, nproc = 1;

struct Part {
    int gid = 0, group = -1;
    bool imm = false;
    double radius = 0.5, length = 0;
    Evec3 pos = Evec3::Zero();
    Equatn q = Equatn::Identity();
};

inline void start(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &nproc);
    vp::init(argc, argv, rank);
    if (!getenv("VP_STDOUT")) { // the library prints its settings
        fflush(stdout);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        close(fd);
    }
    PS::Initialize(argc, argv);
    Logger::setup_mpi_spdlog(spdlog::level::off);
}
inline void stop() {
    vp::finish();
    MPI_Barrier(MPI_COMM_WORLD);
    PS::Finalize();
    MPI_Finalize();
}

inline SylinderConfig config() {
    SylinderConfig c;
    c.rngSeed = 1234;
    c.logLevel = spdlog::level::off;
    c.timerLevel = spdlog::level::off;
    for (int k = 0; k < 3; k++) {
        c.simBoxLow[k] = 0;
        c.simBoxHigh[k] = 8;
        c.simBoxPBC[k] = false;
        c.initBoxLow[k] = 0;
        c.initBoxHigh[k] = 8;
        c.initOrient[k] = 2;
    }
    c.monolayer = false;
    c.initCircularX = false;
    c.initPreSteps = 0;
    c.viscosity = 1;
    c.KBT = 0;
    c.linkKappa = 100;
    c.linkGap = 0.25;
    c.sylinderFixed = false;
    c.sylinderNumber = 0;
    c.sylinderLength = 1;
    c.sylinderLengthSigma = -1;
    c.sylinderDiameter = 1;
    c.sylinderDiameterColRatio = 1;
    c.sylinderLengthColRatio = 1;
    c.sylinderColBuf = 0.25;
    c.dt = 0.01;
    c.timeTotal = 1;
    c.timeSnap = 1000;
    c.conResTol = 1e-8;
    c.conMaxIte = 100000;
    c.conSolverChoice = 0;
    return c;
}

inline Equatn dirq(double x, double y, double z) {
    return Equatn::FromTwoVectors(Evec3(0, 0, 1), Evec3(x, y, z).normalized());
}
inline Evec3 axis(const double *q) { return ECmapq(q) * Evec3(0, 0, 1); }

inline void writePos(const std::string &fn, const std::vector<Part> &p, const std::vector<Link> &l = {}) {
    if (rank == 0) {
        FILE *f = fopen(fn.c_str(), "w");
        fprintf(f, "%zu\n0\n", p.size());
        for (auto &a : p) {
            Evec3 d = a.q * Evec3(0, 0, 1);
            Evec3 m = a.pos - 0.5 * a.length * d, e = a.pos + 0.5 * a.length * d;
            fprintf(f, "%c %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d\n", a.imm ? 'S' : 'C', a.gid, a.radius, m[0], m[1],
                    m[2], e[0], e[1], e[2], a.group);
        }
        for (auto &a : l)
            fprintf(f, "L %d %d\n", a.prev, a.next);
        fclose(f);
    }
    MPI_Barrier(MPI_COMM_WORLD);
}

// overwrite the state of every particle by the exact one of the list (found by id)
inline void setExact(SylinderSystem &s, const std::vector<Part> &p) {
    std::map<int, const Part *> m;
    for (auto &a : p)
        m[a.gid] = &a;
    auto &c = s.getContainerNonConst();
    for (int i = 0; i < c.getNumberOfParticleLocal(); i++) {
        auto it = m.find(c[i].gid);
        if (it == m.end())
            continue;
        const Part &a = *it->second;
        c[i].group = a.group;
        c[i].isImmovable = a.imm;
        c[i].radius = a.radius;
        c[i].length = a.length;
        c[i].radiusCollision = a.radius;
        c[i].lengthCollision = a.length;
        Emap3(c[i].pos) = a.pos;
        Emapq(c[i].orientation) = a.q;
        c[i].colBuf = s.runConfig.sylinderColBuf;
    }
}

inline std::unique_ptr<SylinderSystem> make(const SylinderConfig &c, const std::vector<Part> &p,
                                            const std::vector<Link> &l = {}, bool exact = true) {
    writePos("pos.dat", p, l);
    std::unique_ptr<SylinderSystem> s(new SylinderSystem());
    char a0[] = "x";
    char *av[] = {a0, nullptr};
    s->initialize(c, "pos.dat", 1, av);
    if (exact)
        setExact(*s, p);
    MPI_Barrier(MPI_COMM_WORLD);
    return s;
}

// gather trivially copyable items of all ranks on all ranks, in rank order
template <class T>
std::vector<T> gather(const std::vector<T> &v, std::vector<int> *counts = nullptr) {
    int n = (int)(v.size() * sizeof(T));
    std::vector<int> c(nproc), d(nproc + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < nproc; i++)
        d[i + 1] = d[i] + c[i];
    std::vector<T> r(d[nproc] / sizeof(T));
    MPI_Allgatherv((void *)v.data(), n, MPI_BYTE, r.data(), c.data(), d.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (counts) {
        counts->resize(nproc);
        for (int i = 0; i < nproc; i++)
            (*counts)[i] = c[i] / (int)sizeof(T);
    }
    return r;
}
inline std::vector<Sylinder> localParticles(SylinderSystem &s) {
    auto &c = s.getContainerNonConst();
    std::vector<Sylinder> v;
    for (int i = 0; i < c.getNumberOfParticleLocal(); i++)
        v.push_back(c[i]);
    return v;
}
inline std::vector<Sylinder> particles(SylinderSystem &s, std::vector<int> *counts = nullptr) {
    return gather(localParticles(s), counts);
}
inline std::vector<ConstraintBlock> localBlocks(SylinderSystem &s) {
    std::vector<ConstraintBlock> v;
    for (auto &q : s.getConstraintPoolNonConst())
        for (auto &b : q)
            v.push_back(b);
    return v;
}
inline std::vector<ConstraintBlock> blocks(SylinderSystem &s) { return gather(localBlocks(s)); }

// ---- exact distances (reference)
inline double distPS(const Evec3 &p, const Evec3 &a, const Evec3 &b) {
    Evec3 d = b - a;
    double L = d.squaredNorm();
    double t = L > 0 ? std::min(1.0, std::max(0.0, (p - a).dot(d) / L)) : 0;
    return (p - a - t * d).norm();
}
inline double distSS(const Evec3 &a0, const Evec3 &a1, const Evec3 &b0, const Evec3 &b1) {
    double r = std::min(std::min(distPS(a0, b0, b1), distPS(a1, b0, b1)), std::min(distPS(b0, a0, a1), distPS(b1, a0, a1)));
    Evec3 u = a1 - a0, v = b1 - b0, w = a0 - b0;
    double a = u.dot(u), b = u.dot(v), c = v.dot(v), d = u.dot(w), e = v.dot(w), D = a * c - b * b;
    if (D > 1e-14 * a * c) {
        double s = (b * e - c * d) / D, t = (a * e - b * d) / D;
        if (s > 0 && s < 1 && t > 0 && t < 1)
            r = std::min(r, (w + s * u - t * v).norm());
    }
    return r;
}

inline std::string pbcName(const SylinderConfig &c) {
    return std::string() + (c.simBoxPBC[0] ? "1" : "0") + (c.simBoxPBC[1] ? "1" : "0") + (c.simBoxPBC[2] ? "1" : "0");
}
} // namespace sys
#endif
