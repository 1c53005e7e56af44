// C19: every sequence of additions of particles and links from all rank patterns, and steps, up to a depth, against a reference population; link
// constraints of every pair at every distance in units of the box.
#include "sys.hpp"
#include <random>
#include <set>
using sys::Part;

static unsigned rdSeed = 1; // the ids are shuffled with a generator seeded by the system: make that reproducible and enumerable
std::random_device::result_type std::random_device::_M_getval() { return rdSeed; }

static uint64_t h;

static void checkLinks(SylinderSystem &s, const std::multiset<std::pair<int, int>> &want) {
    std::vector<Link> f, r;
    for (auto &l : s.getLinkMap())
        f.push_back(Link{l.first, l.second});
    for (auto &l : s.getLinkReverseMap())
        r.push_back(Link{l.second, l.first});
    for (int rev = 0; rev < 2; rev++) {
        std::vector<int> cnt;
        auto all = sys::gather(rev ? r : f, &cnt);
        size_t at = 0;
        for (int k = 0; k < sys::nproc; k++) {
            std::multiset<std::pair<int, int>> have;
            for (int i = 0; i < cnt[k]; i++, at++)
                have.insert({all[at].prev, all[at].next});
            VP_CHECK(have == want, "rank %d knows %zu links (%s), there are %zu", k, have.size(), rev ? "reverse" : "forward", want.size());
        }
    }
}

// one spring per link with the right geometry
static void checkConstraints(SylinderSystem &s, const std::vector<Sylinder> &pp, const std::multiset<std::pair<int, int>> &links) {
    auto bl = sys::blocks(s);
    std::map<int, const Sylinder *> by;
    for (auto &p : pp)
        by[p.gid] = &p;
    std::multiset<std::pair<int, int>> have;
    auto &cf = s.runConfig;
    int uni = 0;
    for (auto &b : bl) {
        if (!b.bilateral) {
            uni++;
            continue;
        }
        have.insert({b.gidI, b.gidJ});
        auto I = by.find(b.gidI), J = by.find(b.gidJ);
        if (I == by.end() || J == by.end()) {
            VP_CHECK(false, "link constraint between unknown particles %d %d", b.gidI, b.gidJ);
            continue;
        }
        const Sylinder &A = *I->second, &B = *J->second;
        VP_CHECK(b.globalIndexI == A.globalIndex && b.globalIndexJ == B.globalIndex, "link %d-%d acts on entries %d %d, the particles are %d %d", b.gidI, b.gidJ, b.globalIndexI,
                 b.globalIndexJ, A.globalIndex, B.globalIndex);
        VP_CHECK(!b.oneSide && b.kappa == cf.linkKappa, "link %d-%d: one sided %d stiffness %g", b.gidI, b.gidJ, b.oneSide, b.kappa);
        Evec3 cA = ECmap3(A.pos), cB = ECmap3(B.pos);
        Evec3 lI = ECmap3(b.labI), lJ = ECmap3(b.labJ), d = cB - cA;
        bool tie = false;
        for (int k = 0; k < 3; k++)
            if (cf.simBoxPBC[k]) {
                double L = cf.simBoxHigh[k] - cf.simBoxLow[k];
                d[k] -= L * std::round(d[k] / L);
                if (std::fabs(std::fabs(d[k]) - 0.5 * L) < 1e-9 * L) { // both images are the nearest one: take the one used
                    tie = true;
                    Evec3 c = lJ - ECmap3(b.posJ);
                    d[k] = std::copysign(d[k], c[k] - cA[k]);
                }
            }
        Evec3 P = cA + 0.5 * A.length * sys::axis(A.orientation), Q = cA + d - 0.5 * B.length * sys::axis(B.orientation);
        double sc = 1e-9 * (1 + P.norm() + Q.norm());
        VP_CHECK((lI - P).norm() < sc && (lJ - Q).norm() < sc, "link %d-%d acts at (%g %g %g) (%g %g %g), the ends are (%g %g %g) (%g %g %g)", b.gidI, b.gidJ, lI[0], lI[1], lI[2],
                 lJ[0], lJ[1], lJ[2], P[0], P[1], P[2], Q[0], Q[1], Q[2]);
        VP_CHECK((ECmap3(b.posI) - (P - cA)).norm() < sc && (ECmap3(b.posJ) - (Q - cA - d)).norm() < sc, "link %d-%d: arms are wrong", b.gidI, b.gidJ);
        double want = (Q - P).norm() - A.radius - B.radius - cf.linkGap;
        VP_CHECK(vp::near(b.delta0, want, sc), "link %d-%d: extension %g instead of %g", b.gidI, b.gidJ, b.delta0, want);
        if ((Q - P).norm() > 1e-6) {
            Evec3 n = (P - Q).normalized();
            VP_CHECK((ECmap3(b.normI) - n).norm() < 1e-6 && (ECmap3(b.normJ) + n).norm() < 1e-6, "link %d-%d: direction is wrong", b.gidI, b.gidJ);
        }
        vp::count(tie ? "link_constraints_at_half_box" : "link_constraints");
    }
    VP_CHECK(have == links, "%zu link constraints for %zu links", have.size(), links.size());
    // contacts: brute force (the particles are small against the box)
    std::multiset<std::pair<int, int>> con, ref;
    for (auto &b : bl)
        if (!b.bilateral)
            con.insert({std::min(b.gidI, b.gidJ), std::max(b.gidI, b.gidJ)});
    for (size_t i = 0; i < pp.size(); i++)
        for (size_t j = i + 1; j < pp.size(); j++) {
            Evec3 d = ECmap3(pp[j].pos) - ECmap3(pp[i].pos);
            for (int k = 0; k < 3; k++)
                if (cf.simBoxPBC[k]) {
                    double L = cf.simBoxHigh[k] - cf.simBoxLow[k];
                    d[k] -= L * std::round(d[k] / L);
                }
            Evec3 a = 0.5 * pp[i].lengthCollision * sys::axis(pp[i].orientation), b = 0.5 * pp[j].lengthCollision * sys::axis(pp[j].orientation);
            if (sys::distSS(-a, a, d - b, d + b) < pp[i].radiusCollision + pp[j].radiusCollision - 1e-3)
                ref.insert({std::min(pp[i].gid, pp[j].gid), std::max(pp[i].gid, pp[j].gid)});
        }
    for (auto &r : ref)
        VP_CHECK(con.count(r) == 1, "%zu constraints for the overlap of particles %d %d", con.count(r), r.first, r.second);
    vp::count("overlaps", ref.size());
}

struct World {
    SylinderSystem &s;
    std::map<int, Sylinder> model; // gid -> particle
    std::multiset<std::pair<int, int>> links;
    int serial = 0;

    Sylinder fresh(int k) { // k-th new particle ever, in groups that overlap pairwise
        const int c = k / 2;
        double x[3] = {0.5 + std::fmod(1.37 * c, 7.3), 0.5 + std::fmod(2.11 * c + 0.3 * (c / 7), 7.3), 0.5 + std::fmod(3.77 * c + 0.2 * (c / 5), 7.3)};
        if (k % 2)
            x[0] += 0.15;
        double q[4];
        Emapq(q).coeffs() = sys::dirq(0.2 * (k % 3), 1, 0.3).coeffs();
        Sylinder sy(-7, 0.1, 0.1, 0.1 * (k % 3), 0.1 * (k % 3), x, q);
        sy.group = 1000 + k;
        sy.isImmovable = false;
        sy.vel[0] = k;
        sy.colBuf = 0.05;
        return sy;
    }
    void compare(bool moved) {
        auto now = sys::particles(s);
        VP_CHECK(now.size() == model.size(), "%zu particles, there should be %zu", now.size(), model.size());
        std::set<int> ids;
        for (auto &p : now) {
            VP_CHECK(ids.insert(p.gid).second, "id %d is used twice", p.gid);
            auto it = model.find(p.gid);
            if (it == model.end()) {
                VP_CHECK(false, "unknown id %d", p.gid);
                continue;
            }
            auto &m = it->second;
            VP_CHECK(p.group == m.group && p.radius == m.radius && p.length == m.length && p.isImmovable == m.isImmovable, "particle %d: data of group %d length %g, it was %d %g",
                     p.gid, p.group, p.length, m.group, m.length);
            if (!moved)
                VP_CHECK((ECmap3(p.pos) - ECmap3(m.pos)).norm() == 0 && p.vel[0] == m.vel[0] && (sys::axis(p.orientation) - sys::axis(m.orientation)).norm() == 0,
                         "particle %d moved by an addition", p.gid);
        }
        checkLinks(s, links);
    }
    int count(char op, int r) {
        switch (op) {
        case 'a': return r == 0;
        case 'b': return r == sys::nproc - 1 ? 2 : 0;
        case 'c': return r + 1;
        case 'd': return r == 0 ? 0 : 3;
        case 'e': return 0;
        default: return 12; // 'f': the system grows by several times
        }
    }
    void add(char op) {
        auto before = sys::particles(s);
        std::vector<int> cntBefore;
        sys::particles(s, &cntBefore);
        int first = serial;
        for (int r = 0; r < sys::rank; r++)
            first += count(op, r);
        std::vector<Sylinder> v;
        for (int i = 0; i < count(op, sys::rank); i++)
            v.push_back(fresh(first + i));
        auto ids = s.addNewSylinder(v);
        VP_CHECK(ids.size() == v.size(), "%zu ids for %zu particles", ids.size(), v.size());
        ids.resize(v.size(), -1);
        for (size_t i = 0; i < v.size(); i++)
            v[i].gid = ids[i];
        auto &c = s.getContainerNonConst();
        VP_CHECK(c.getNumberOfParticleLocal() == cntBefore[sys::rank] + (int)v.size(), "particles are not added to the rank that brings them");
        for (auto &p : sys::gather(v)) {
            VP_CHECK(!model.count(p.gid), "new particle gets the existing id %d", p.gid);
            model[p.gid] = p;
        }
        for (int r = 0; r < sys::nproc; r++)
            serial += count(op, r);
        compare(false);
        vp::count("additions");
    }
    void link(char op) {
        std::vector<int> ids;
        for (auto &m : model)
            ids.push_back(m.first);
        int n = ids.size();
        std::vector<Link> l;
        auto put = [&](int a, int b) {
            a = (a % n + n) % n, b = (b % n + n) % n;
            if (a != b)
                l.push_back(Link{ids[a], ids[b]});
        };
        switch (op) {
        case 'A': // the same list from every rank
            put(0, 1), put(1, 2);
            break;
        case 'B': // a list of its own from every rank
            put(sys::rank, sys::rank + 1), put(sys::rank + 3, sys::rank);
            break;
        case 'C': // only the last rank, with repetitions, fan out
            if (sys::rank == sys::nproc - 1)
                put(0, 1), put(0, 2), put(0, 1), put(0, 3);
            break;
        case 'D': // both directions, newest particles
            if (sys::rank == 0)
                put(n - 1, n - 2), put(n - 2, n - 1);
            break;
        case 'E':
            break;
        case 'F': // fan in
            for (int i = 1; i < 5; i++)
                if (i % sys::nproc == sys::rank)
                    put(i, 0);
            break;
        }
        std::set<std::pair<int, int>> set(links.begin(), links.end());
        for (auto &x : sys::gather(l))
            set.insert({x.prev, x.next});
        s.addNewLink(l);
        links.clear();
        links.insert(set.begin(), set.end());
        compare(false);
        vp::count("link_lists");
    }
    void step() {
        s.prepareStep();
        auto pp = sys::particles(s);
        s.runStep();
        compare(true);
        checkConstraints(s, pp, links);
        for (auto &p : sys::particles(s))
            model[p.gid] = p;
        vp::count("steps");
    }
};

static void sequences() {
    bool th = vp::S().thorough;
    const std::string alpha = "abcdefABCDEFP";
    const int NA = alpha.size();
    for (int cfg = 0; cfg < 6; cfg++)
        for (int depth = 1; depth <= (th ? 5 : 4); depth++) {
            long tot = 1;
            for (int i = 0; i < depth; i++)
                tot *= NA;
            long stride = depth < 3 ? 1 : depth == 3 ? (th ? 3 : 23) : depth == 4 ? (th ? 61 : 601) : 1009;
            for (long q = cfg % stride; q < tot; q += stride) {
                std::string ops;
                long r = q;
                for (int i = 0; i < depth; i++, r /= NA)
                    ops += alpha[r % NA];
                if (!vp::begin(vp::fmt("seq cfg%d %s", cfg, ops.c_str())))
                    continue;
                rdSeed = q * 7 + cfg;
                h = cfg;
                auto cf = sys::config();
                for (int k = 0; k < 3; k++)
                    cf.simBoxPBC[k] = cfg >> k & 1;
                cf.conMaxIte = 200; // the forces do not matter here
                if (cfg % 3) {
                    cf.sylinderLengthColRatio = 1.3;
                    cf.sylinderDiameterColRatio = 1.15;
                }
                cf.dt = 1e-5;
                int n = cfg == 2 ? 1 : 4;
                std::vector<Part> p(n);
                for (int i = 0; i < n; i++) {
                    p[i].gid = cfg == 3 ? 50 - 7 * i : cfg == 4 ? 20000003 + 11 * i : cfg == 5 ? 2147480000 - i : i;
                    p[i].radius = 0.1;
                    p[i].length = 0.15 * i;
                    p[i].group = i;
                    p[i].pos = Evec3(1 + 1.9 * i, 7.9 - i, 0.1 + 2.3 * i);
                    p[i].q = sys::dirq(1, i, -1);
                }
                std::vector<Link> l;
                if (cfg % 2 && n > 2)
                    l = {{p[0].gid, p[1].gid}, {p[2].gid, p[1].gid}};
                auto s = sys::make(cf, p, l);
                World w{*s};
                for (auto &a : sys::particles(*s))
                    w.model[a.gid] = a;
                for (auto &a : l)
                    w.links.insert({a.prev, a.next});
                w.compare(false);
                for (char c : ops)
                    if (c == 'P')
                        w.step();
                    else if (islower(c))
                        w.add(c);
                    else if (w.model.size() > 1)
                        w.link(c);
                w.step();
                vp::S().states++;
                vp::S().transitions += depth + 1;
                vp::S().traces++;
                vp::nontrivial();
                vp::outcome(vp::fmt("%zu %zu", w.model.size(), w.links.size()));
            }
        }
}

// every distance in units of the box, the tie of two nearest images included
static void distances() {
    const double box[][2] = {{0, 8}, {0.1, 8.3}, {-3, 4.1}, {-7.7, -1.1}, {0.3, 0.9}, {100.1, 107.3}, {-0.7, 1.0 / 3}};
    const double fr[] = {0, 0.1, 0.25, 0.49999999, 0.5, 0.50000001, 0.7, 0.95};
    for (int ib = 0; ib < 7; ib++)
        for (int ix = 0; ix < 23; ix++)
            for (int pb : {7, 5, 2, 0}) {
                if (!vp::begin(vp::fmt("dist box%d x%d pbc%d", ib, ix, pb)))
                    continue;
                auto cf = sys::config();
                cf.conMaxIte = 50;
                cf.sylinderLengthColRatio = ix % 2 ? 1 : 0.8;
                cf.sylinderDiameterColRatio = ix % 3 ? 1 : 1.25;
                double L = box[ib][1] - box[ib][0];
                for (int k = 0; k < 3; k++) {
                    cf.simBoxLow[k] = box[ib][0];
                    cf.simBoxHigh[k] = box[ib][1];
                    cf.simBoxPBC[k] = pb >> k & 1;
                }
                std::vector<Part> p;
                std::vector<Link> l;
                std::multiset<std::pair<int, int>> links;
                for (int i = 0; i < 9; i++) {
                    Part a;
                    a.gid = i;
                    a.radius = 0.004 * L;
                    a.length = 0.05 * L * (i % 3);
                    a.q = sys::dirq(1, 0.3 * i - 1, 0.5);
                    double x = box[ib][0] + L * (ix / 23.0);
                    double d = i ? fr[i - 1] * L : 0;
                    for (int k = 0; k < 3; k++) {
                        a.pos[k] = x + (k == i % 3 ? d : 0.013 * L * i);
                        while (a.pos[k] >= box[ib][1])
                            a.pos[k] -= L;
                        a.pos[k] = std::max(a.pos[k], box[ib][0]);
                    }
                    p.push_back(a);
                    if (i)
                        l.push_back(i % 2 ? Link{0, i} : Link{i, 0}), links.insert({l.back().prev, l.back().next});
                }
                auto s = sys::make(cf, p, l);
                s->prepareStep();
                auto pp = sys::particles(*s);
                s->runStep();
                checkConstraints(*s, pp, links);
                vp::nontrivial();
                vp::outcome(vp::fmt("d%d", ib));
            }
}

int main(int c, char **v) {
    sys::start(c, v);
    sequences();
    distances();
    sys::stop();
}
