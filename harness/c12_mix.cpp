// C12: MixPairInteraction on every small two-particle geometry and on crowds, against all pairs and images by brute force.
#include <cassert>
#include <fstream>
#include <iostream>
#include <memory>
#include <mpi.h>
#include <sstream>
#include "mp.hpp"
#include "MPI/MixPairInteraction.hpp"
using namespace mp;
struct P3 {
    int gid;
    double RSearch;
    double pos[3];
    double getRSearch() const { return RSearch; }
    PS::F64vec3 getPos() const { return PS::F64vec3(pos[0], pos[1], pos[2]); }
    void setPos(const PS::F64vec3 &p) {
        pos[0] = p.x;
        pos[1] = p.y;
        pos[2] = p.z;
    }
};
struct Src : P3 {
    double w;
    void copyFromFP(const Src &o) { *this = o; }
};
struct Trg : P3 {
    int tag;
    void copyFromFP(const Trg &o) { *this = o; }
};
struct Frc {
    int n = 0, gid = -1;
    double w = 0, d[3] = {0, 0, 0};
    void clear() {
        n = 0;
        gid = -1;
        w = 0;
        d[0] = d[1] = d[2] = 0;
    }
};
struct Calc {
    void operator()(const MixEPI<Trg> *const t, const PS::S32 nt, const MixEPJ<Src> *const s, const PS::S32 ns, Frc *const f) {
        for (int i = 0; i < nt; i++) {
            if (!t[i].trgFlag)
                continue;
            f[i].gid = t[i].epTrg.gid;
            auto x = t[i].getPos();
            for (int j = 0; j < ns; j++) {
                if (!s[j].srcFlag)
                    continue;
                auto y = s[j].getPos();
                double r = std::max(t[i].getRSearch(), s[j].getRSearch());
                if (x.getDistanceSQ(y) < r * r) {
                    f[i].n++;
                    f[i].w += s[j].epSrc.w;
                    f[i].d[0] += y.x - x.x;
                    f[i].d[1] += y.y - x.y;
                    f[i].d[2] += y.z - x.z;
                }
            }
        }
    }
};
typedef MixPairInteraction<Trg, Src, Trg, Src, Frc> Mix;
static const double LO[3] = {0, -1, 2}, LEN[3] = {4, 5, 6};
static uint64_t lcg(uint64_t &s) { return (s = s * 6364136223846793005ull + 1442695040888963407ull) >> 33; }
static double u01(uint64_t &s) { return lcg(s) / 2147483648.0; }

static void setBC(PS::DomainInfo &d, int pbc) {
    const PS::BOUNDARY_CONDITION b[8] = {PS::BOUNDARY_CONDITION_OPEN, PS::BOUNDARY_CONDITION_PERIODIC_X,
                                         PS::BOUNDARY_CONDITION_PERIODIC_Y, PS::BOUNDARY_CONDITION_PERIODIC_XY,
                                         PS::BOUNDARY_CONDITION_PERIODIC_Z, PS::BOUNDARY_CONDITION_PERIODIC_XZ,
                                         PS::BOUNDARY_CONDITION_PERIODIC_YZ, PS::BOUNDARY_CONDITION_PERIODIC_XYZ};
    d.setBoundaryCondition(b[pbc]);
    d.setPosRootDomain(PS::F64vec3(LO[0], LO[1], LO[2]), PS::F64vec3(LO[0] + LEN[0], LO[1] + LEN[1], LO[2] + LEN[2]));
}
static void runSys(Mix &mix, const std::string &key, int pbc, const std::vector<Trg> &T, const std::vector<Src> &Q, int twice,
                   bool out = false) {
    if (!vp::begin(key))
        return;
    PS::ParticleSystem<Trg> st;
    PS::ParticleSystem<Src> ss;
    st.initialize();
    ss.initialize();
    PS::DomainInfo dinfo;
    dinfo.initialize();
    setBC(dinfo, pbc);
    // start with everything dealt out over the ranks, then exchange
    auto fill = [&](auto &s, auto &v) {
        int n = 0;
        for (size_t i = 0; i < v.size(); i++)
            n += (int)i % np == rank;
        s.setNumberOfParticleLocal(n);
        n = 0;
        for (size_t i = 0; i < v.size(); i++)
            if ((int)i % np == rank)
                s[n++] = v[i];
    };
    fill(st, T);
    fill(ss, Q);
    if (Q.size() >= T.size())
        dinfo.decomposeDomainAll(ss);
    else
        dinfo.decomposeDomainAll(st);
    st.exchangeParticle(dinfo);
    ss.exchangeParticle(dinfo);
    if (out) { // the particles have left the box through its periodic faces since
        auto leave = [&](auto &s, int a) {
            for (int i = 0; i < s.getNumberOfParticleLocal(); i++)
                for (int k = 0; k < 3; k++)
                    if (pbc >> k & 1)
                        s[i].pos[k] += ((i * 7 + k * 3 + a) % 3 - 1) * LEN[k];
        };
        leave(st, 1);
        leave(ss, 0);
    }
    for (int rep = 0; rep < twice; rep++) {
        mix.updateSystem(st, ss, dinfo);
        mix.updateTree();
        Calc c;
        mix.computeForce(c, dinfo);
    }
    const auto &f = mix.getForceResult();
    const int nt = st.getNumberOfParticleLocal();
    VP_CHECK((int)f.size() == nt, "%zu results for %d local targets", f.size(), nt);
    int hits = 0, ok = 0;
    uint64_t h = pbc;
    for (int i = 0; i < nt && i < (int)f.size(); i++) {
        const Trg &t = st[i];
        Frc e;
        for (auto &s : Q) {
            double r = std::max(t.RSearch, s.RSearch);
            int m[3];
            for (int k = 0; k < 3; k++)
                m[k] = (pbc >> k & 1) ? 4 : 0;
            for (int a = -m[0]; a <= m[0]; a++)
                for (int b = -m[1]; b <= m[1]; b++)
                    for (int c = -m[2]; c <= m[2]; c++) {
                        double d[3] = {s.pos[0] + a * LEN[0] - t.pos[0], s.pos[1] + b * LEN[1] - t.pos[1], s.pos[2] + c * LEN[2] - t.pos[2]};
                        if (d[0] * d[0] + d[1] * d[1] + d[2] * d[2] < r * r) {
                            e.n++;
                            e.w += s.w;
                            for (int k = 0; k < 3; k++)
                                e.d[k] += d[k];
                        }
                    }
        }
        hits += e.n;
        VP_CHECK(f[i].gid == t.gid, "result %d belongs to target %d instead of %d", i, f[i].gid, t.gid);
        VP_CHECK(f[i].n == e.n, "target %d sees %d sources, expected %d", t.gid, f[i].n, e.n);
        VP_CHECK(vp::near(f[i].w, e.w, 1e-9 * (1 + std::fabs(e.w))), "target %d accumulates %.17g, expected %.17g", t.gid, f[i].w, e.w);
        for (int k = 0; k < 3; k++)
            VP_CHECK(vp::near(f[i].d[k], e.d[k], 1e-7), "target %d displacement sum %d: %.17g, expected %.17g", t.gid, k, f[i].d[k], e.d[k]);
        ok++;
        h += vp::mix(vp::mix(t.gid, e.n), vp::rnd(e.w));
    }
    // all targets are still there
    std::vector<int> g;
    for (int i = 0; i < nt; i++)
        g.push_back(st[i].gid);
    auto G = gather(g);
    VP_CHECK(G.size() == T.size(), "%zu targets of %zu after the exchange", G.size(), T.size());
    auto H = gather(std::vector<int>{hits});
    auto HH = gather(std::vector<uint64_t>{h});
    int tot = 0;
    h = 0;
    for (int x : H)
        tot += x;
    for (auto x : HH)
        h += x;
    if (tot)
        vp::nontrivial();
    vp::count("pair_visits", hits);
    vp::outcome(h);
}
int main(int argc, char **argv) {
    start(argc, argv);
    PS::Initialize(argc, argv);
    const bool th = vp::S().thorough;
    {
        Mix mix; // one calculator for the whole history
        mix.initialize();
        // one target, one source (and both alone) on a lattice that includes box borders and corners
        const int B = th ? 5 : 4;
        std::vector<std::array<double, 3>> pts;
        for (int a = 0; a < B; a++)
            for (int b = 0; b < B; b++)
                for (int c = 0; c < B; c++)
                    pts.push_back({LO[0] + LEN[0] * (a / (double)B), LO[1] + LEN[1] * ((b + 0.01) / B), LO[2] + LEN[2] * (c + 0.97) / B});
        const double RT[] = {0.3, 1.57, 3.7}, RS[] = {0.01, 2.03, 5.2};
        for (int pbc = 0; pbc < 8; pbc++)
            for (int rt = 0; rt < 3; rt++)
                for (int rs = 0; rs < 3; rs++)
                    for (size_t i = 0; i < pts.size(); i++) {
                        // one target against all lattice sources with one radius, and single sources
                        std::vector<Trg> T(1);
                        T[0].gid = 7;
                        T[0].tag = 1;
                        T[0].RSearch = RT[rt];
                        std::copy(pts[i].begin(), pts[i].end(), T[0].pos);
                        std::vector<Src> Q;
                        for (size_t j = 0; j < pts.size(); j++) {
                            Src s;
                            s.gid = j;
                            s.w = 1 + j * 0.37;
                            s.RSearch = RS[rs];
                            for (int k = 0; k < 3; k++)
                                s.pos[k] = pts[j][k];
                            Q.push_back(s);
                        }
                        if (i % 5 == 0 || th)
                            runSys(mix, vp::fmt("lattice pbc%d rt%d rs%d p%zu", pbc, rt, rs, i), pbc, T, Q, 1);
                        std::vector<Src> one(1, Q[(i * 29 + rt * 7 + rs * 3 + pbc) % Q.size()]);
                        runSys(mix, vp::fmt("pair pbc%d rt%d rs%d p%zu", pbc, rt, rs, i), pbc, T, one, 1);
                        if (np == 1 && pbc)
                            runSys(mix, vp::fmt("pair pbc%d rt%d rs%d p%zu outside", pbc, rt, rs, i), pbc, T, one, 1, true);
                    }
        // crowds, growing and shrinking, one of the sets empty
        for (int pbc = 0; pbc < 8; pbc++)
            for (int shape = 0; shape < 4; shape++)
                for (int sz = 0; sz < 9; sz++) {
                    const int NT[] = {1, 0, 3, 40, 5, 200, 30, 0, 60}, NS[] = {2, 3, 0, 10, 60, 150, 0, 50, 1};
                    uint64_t s = 1000 + pbc * 100 + shape * 10 + sz;
                    std::vector<Trg> T;
                    std::vector<Src> Q;
                    auto put = [&](auto &p, int i) {
                        p.gid = i;
                        for (int k = 0; k < 3; k++) {
                            double x = u01(s);
                            if (shape == 1)
                                x = x * 0.05 + (i % 2 ? 0.95 : 0.0); // clusters in corners
                            if (shape == 2 && k)
                                x = 0.5;
                            p.pos[k] = LO[k] + LEN[k] * std::min(x, 0.999999);
                            if (shape == 3 && k != 1 && !(pbc >> k & 1))
                                p.pos[k] += 2 * LEN[k] * (u01(s) - 0.5); // outside the box where it is open
                        }
                    };
                    for (int i = 0; i < NT[sz]; i++) {
                        Trg t;
                        put(t, i);
                        t.tag = i;
                        t.RSearch = shape == 1 ? 0.2 + 0.5 * u01(s) : i % 10 == 0 ? 2.5 : 0.3 + 0.6 * u01(s);
                        T.push_back(t);
                    }
                    for (int i = 0; i < NS[sz]; i++) {
                        Src q;
                        put(q, i);
                        q.w = u01(s);
                        q.RSearch = i % 7 == 0 ? 3.1 : 0.1 + u01(s);
                        Q.push_back(q);
                    }
                    runSys(mix, vp::fmt("crowd pbc%d shape%d size%d", pbc, shape, sz), pbc, T, Q, 1 + sz % 2);
                    if (np == 1 && pbc)
                        runSys(mix, vp::fmt("crowd pbc%d shape%d size%d outside", pbc, shape, sz), pbc, T, Q, 1 + sz % 2, true);
                }
        // fresh calculators
        for (int pbc = 0; pbc < 8; pbc++)
            for (int n = 1; n < 6; n++) {
                Mix m;
                m.initialize();
                uint64_t s = 77 + n;
                std::vector<Trg> T(n);
                std::vector<Src> Q(6 - n);
                for (int i = 0; i < n; i++) {
                    T[i].gid = 10 + i;
                    T[i].RSearch = 0.5 + u01(s);
                    for (int k = 0; k < 3; k++)
                        T[i].pos[k] = LO[k] + LEN[k] * u01(s);
                }
                for (int i = 0; i < 6 - n; i++) {
                    Q[i].gid = i;
                    Q[i].w = i + 1;
                    Q[i].RSearch = 1.5 + u01(s);
                    for (int k = 0; k < 3; k++)
                        Q[i].pos[k] = LO[k] + LEN[k] * u01(s);
                }
                runSys(m, vp::fmt("fresh pbc%d n%d", pbc, n), pbc, T, Q, 2);
            }
    }
    vp::finish();
    MPI_Barrier(MPI_COMM_WORLD);
    PS::Finalize();
    MPI_Finalize();
}
