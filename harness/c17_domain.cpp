// C17: every sequence of {apply box, decompose, exchange, prepare step, move particles} up to a depth, on systems that are crowded, sparse, on one spot,
// at the faces of the box and many box lengths away.
#include "sys.hpp"
using sys::Part;

struct Box {
    double lo[3], hi[3];
};
static const Box boxes[] = {{{0, 0, 0}, {8, 8, 8}}, {{-3, 0.1, -7.7}, {4.1, 8.3, -1.1}}, {{0.1, -0.3, 1000.1}, {0.7, 0.9, 1001.3}}, {{-1e-3, -5, 0.3}, {1e-3, 12.3, 0.6}}};

// the coordinate patterns a particle can have relative to the box
static double coord(int c, double lo, double hi) {
    double L = hi - lo;
    switch (c) {
    case 0: return lo;
    case 1: return hi;
    case 2: return std::nextafter(lo, -1e300);
    case 3: return std::nextafter(hi, -1e300);
    case 4: return lo + 0.37 * L;
    case 5: return lo - 2.63 * L;
    case 6: return hi + 3.11 * L;
    case 7: return lo + 0.5 * L;
    case 8: return lo + 0.91 * L;
    case 9: return hi + L;
    case 10: return lo - L;
    case 11: return std::nextafter(hi, 1e300);
    case 12: return hi - 1e-16 * L;
    case 13: return lo - 1e-17 * L;
    default: return lo + 0.05 * L;
    }
}
static const int NC = 15;

static bool fieldsEqual(const Sylinder &a, const Sylinder &b, bool all) {
    bool e = a.gid == b.gid && a.group == b.group && a.isImmovable == b.isImmovable && a.radius == b.radius && a.length == b.length;
    for (int k = 0; k < 4; k++)
        e = e && a.orientation[k] == b.orientation[k];
    if (!all)
        return e;
    e = e && a.radiusCollision == b.radiusCollision && a.lengthCollision == b.lengthCollision && a.colBuf == b.colBuf;
    const double *x[] = {a.vel, a.omega, a.velCol, a.omegaCol, a.velBi, a.omegaBi, a.velNonB, a.omegaNonB, a.force, a.torque, a.forceCol, a.torqueCol, a.forceBi, a.torqueBi,
                         a.forceNonB, a.torqueNonB, a.velBrown, a.omegaBrown};
    const double *y[] = {b.vel, b.omega, b.velCol, b.omegaCol, b.velBi, b.omegaBi, b.velNonB, b.omegaNonB, b.force, b.torque, b.forceCol, b.torqueCol, b.forceBi, b.torqueBi,
                         b.forceNonB, b.torqueNonB, b.velBrown, b.omegaBrown};
    for (int i = 0; i < 18; i++)
        for (int k = 0; k < 3; k++)
            e = e && x[i][k] == y[i][k];
    return e;
}

struct Run {
    SylinderSystem &s;
    SylinderConfig cf;
    int n, salt;
    std::map<int, Sylinder> model; // what every particle must be
    bool inBox = false;
    uint64_t h = 1;

    void assignData() { // distinct values in every field
        auto &c = s.getContainerNonConst();
        for (int i = 0; i < c.getNumberOfParticleLocal(); i++) {
            double *f[] = {c[i].vel, c[i].omega, c[i].velCol, c[i].omegaCol, c[i].velBi, c[i].omegaBi, c[i].velNonB, c[i].omegaNonB, c[i].force, c[i].torque, c[i].forceCol,
                           c[i].torqueCol, c[i].forceBi, c[i].torqueBi, c[i].forceNonB, c[i].torqueNonB, c[i].velBrown, c[i].omegaBrown};
            for (int a = 0; a < 18; a++)
                for (int k = 0; k < 3; k++)
                    f[a][k] = c[i].gid + 0.01 * a + 0.001 * k;
        }
    }
    void move(int mv) {
        auto &c = s.getContainerNonConst();
        for (int i = 0; i < c.getNumberOfParticleLocal(); i++)
            for (int k = 0; k < 3; k++) {
                int g = c[i].gid;
                int pat;
                if (mv == 0)
                    pat = (g * (k + 2) + 3 * k + salt) % NC; // every pattern
                else
                    pat = 4; // all on the same spot
                double x = coord(pat, cf.simBoxLow[k], cf.simBoxHigh[k]);
                if (!cf.simBoxPBC[k]) // stays wherever it is
                    x = pat % 3 ? x : cf.simBoxLow[k] + 0.7 * g;
                c[i].pos[k] = x;
            }
        snapshot();
        inBox = false;
    }
    void snapshot() {
        model.clear();
        for (auto &p : sys::particles(s))
            model[p.gid] = p;
    }
    void check(char op, bool all, bool wrapped, bool placed) {
        auto now = sys::particles(s);
        VP_CHECK((int)now.size() == n, "after %c: %zu particles instead of %d", op, now.size(), n);
        std::map<int, int> seen;
        for (auto &p : now) {
            VP_CHECK(seen[p.gid]++ == 0, "after %c: particle %d exists twice", op, p.gid);
            auto it = model.find(p.gid);
            if (it == model.end()) {
                VP_CHECK(false, "after %c: unknown particle %d", op, p.gid);
                continue;
            }
            VP_CHECK(fieldsEqual(p, it->second, all), "after %c: data of particle %d changed", op, p.gid);
            for (int k = 0; k < 3; k++) {
                double lo = cf.simBoxLow[k], hi = cf.simBoxHigh[k], L = hi - lo, x0 = it->second.pos[k], x = p.pos[k];
                if (!wrapped || !cf.simBoxPBC[k] || (x0 >= lo && x0 < hi)) {
                    VP_CHECK(x == x0, "after %c: coordinate %d of particle %d moved from %.17g to %.17g", op, k, p.gid, x0, x);
                    continue;
                }
                double m = (x - x0) / L, tol = 1e-14 * (std::fabs(x0) + std::fabs(lo) + std::fabs(hi)) * 16;
                VP_CHECK(x >= lo && x < hi, "after %c: coordinate %d of particle %d is %.17g, outside [%.17g, %.17g)", op, k, p.gid, x, lo, hi);
                VP_CHECK(std::fabs(m - std::round(m)) * L <= tol, "after %c: particle %d was shifted by %.15g box lengths", op, p.gid, m);
                vp::count("wrapped_coordinates");
            }
        }
        if (placed) {
            auto loc = sys::localParticles(s);
            auto dom = s.getDomainInfoNonConst().getPosDomain(sys::rank);
            for (auto &p : loc) {
                VP_CHECK(p.rank == sys::rank, "after %c: particle %d on rank %d is labelled %d", op, p.gid, sys::rank, p.rank);
                const double lo[3] = {dom.low_.x, dom.low_.y, dom.low_.z}, hi[3] = {dom.high_.x, dom.high_.y, dom.high_.z};
                for (int k = 0; k < 3; k++)
                    VP_CHECK(p.pos[k] >= lo[k] && p.pos[k] < hi[k], "after %c: coordinate %d of particle %d on rank %d is %.17g, its subdomain is [%.17g, %.17g)", op, k, p.gid,
                             sys::rank, p.pos[k], lo[k], hi[k]);
            }
            h = vp::mix(h, loc.size());
        }
        if (op == 'P')
            for (size_t i = 0; i < now.size(); i++)
                VP_CHECK(now[i].globalIndex == (int)i, "global index of entry %zu over the ranks is %d", i, now[i].globalIndex);
        snapshot();
        vp::count("operations");
    }
    void run(const std::string &ops) {
        for (char c : ops) {
            if (c == 'A') {
                s.applyBoxBC();
                check(c, true, true, false);
                inBox = true;
            } else if (c == 'D') {
                s.decomposeDomain();
                check(c, true, true, false);
                inBox = true;
            } else if (c == 'X') {
                s.exchangeSylinder();
                check(c, true, false, true);
            } else if (c == 'P') {
                s.prepareStep();
                check(c, false, true, true);
                assignData();
                snapshot();
                inBox = true;
            } else
                move(c - '0');
        }
    }
};

int main(int c, char **v) {
    sys::start(c, v);
    bool th = vp::S().thorough;
    const char *alpha = "ADXP01";
    std::unique_ptr<SylinderSystem> s;
    std::string cached;
    for (int ib = 0; ib < 4; ib++)
        for (int pb = 0; pb < 8; pb++)
            for (int n : {1, 2, 5, 40})
              for (int age : {0, 1}) // 1: a system that has already made a step, so that preparing does not decompose again
                for (int depth = 1; depth <= (th ? 6 : 5); depth++) {
                    long tot = 1;
                    for (int i = 0; i < depth; i++)
                        tot *= 6;
                    for (long q = 0; q < tot; q++) {
                        std::string ops = "0";
                        long r = q;
                        for (int i = 0; i < depth; i++, r /= 6)
                            ops += alpha[r % 6];
                        // a move may not be followed by an exchange before the particles are back in the box
                        bool in = false, ok = true, any = false;
                        for (char ch : ops) {
                            if (ch == '0' || ch == '1')
                                in = false;
                            else if (ch == 'X')
                                ok = ok && in, any = true;
                            else
                                in = true, any = true;
                        }
                        if (!ok || !any)
                            continue;
                        int strd = depth < 4 ? 1 : depth == 4 ? (th ? 1 : 13) : depth == 5 ? (th ? 7 : 251) : 211;
                        if ((q + ib + pb + n + 2 * age) % strd)
                            continue;
                        if (!vp::begin(vp::fmt("box%d pbc%d n%d age%d ops%s", ib, pb, n, age, ops.c_str())))
                            continue;
                        auto cf = sys::config();
                        for (int k = 0; k < 3; k++) {
                            cf.simBoxLow[k] = boxes[ib].lo[k];
                            cf.simBoxHigh[k] = boxes[ib].hi[k];
                            cf.simBoxPBC[k] = pb >> k & 1;
                        }
                        std::vector<Part> p(n);
                        for (int i = 0; i < n; i++) {
                            p[i].gid = i;
                            p[i].group = 100 - i;
                            p[i].imm = i % 5 == 3;
                            p[i].radius = 0.01 + 0.001 * i;
                            p[i].length = 0.02 * (i % 3);
                            p[i].q = sys::dirq(i % 3 - 1, 0.5, i % 4 - 1.5);
                            for (int k = 0; k < 3; k++)
                                p[i].pos[k] = boxes[ib].lo[k] + (boxes[ib].hi[k] - boxes[ib].lo[k]) * std::fmod(0.37 + 0.618034 * i * (k + 1), 1.0);
                        }
                        // one system per box and size (FDPS never frees its communicators): back to the initial state
                        if (cached != vp::fmt("%d %d %d %d", ib, pb, n, age)) {
                            s.reset();
                            s = sys::make(cf, p);
                            cached = vp::fmt("%d %d %d %d", ib, pb, n, age);
                            if (age) {
                                s->prepareStep();
                                s->runStep();
                            }
                        }
                        {
                            sys::setExact(*s, p);
                            s->decomposeDomain();
                            s->exchangeSylinder();
                        }
                        Run R{*s, cf, n, int(q % NC)};
                        R.assignData();
                        R.snapshot();
                        R.run(ops);
                        vp::S().states++;
                        vp::S().transitions += ops.size();
                        vp::S().traces++;
                        vp::nontrivial();
                        vp::outcome(R.h);
                    }
                }
    s.reset();
    sys::stop();
}
