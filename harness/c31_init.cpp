// C31: the initial state of the real system for every particle / link line of a lattice of files and every combination of generator settings, with
// every random number controlled.
#include "sys.hpp"
#include <algorithm>
#include <set>

static uint64_t mx(uint64_t z) { return trng::stub::mix(z); }

struct Line {
    char type;
    int gid, group;
    bool hasGroup;
    double r, m[3], p[3];
    bool out; // outside of the box along a periodic direction
};

static std::unique_ptr<SylinderSystem> open(const SylinderConfig &c, const char *fn) {
    std::unique_ptr<SylinderSystem> s(new SylinderSystem());
    char a0[] = "x";
    char *av[] = {a0, nullptr};
    s->initialize(c, fn, 1, av);
    MPI_Barrier(MPI_COMM_WORLD);
    return s;
}

static void checkMaps(SylinderSystem &s, const std::multiset<std::pair<int, int>> &want) {
    for (int rev = 0; rev < 2; rev++) {
        std::multiset<std::pair<int, int>> have;
        if (rev)
            for (auto &l : s.getLinkReverseMap())
                have.insert({l.second, l.first});
        else
            for (auto &l : s.getLinkMap())
                have.insert({l.first, l.second});
        int bad = have != want, all;
        MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        VP_CHECK(all == 0, "the %s link map of %d ranks differs from the file (%zu links listed, %zu here)", rev ? "reverse" : "forward", all, want.size(), have.size());
    }
}

static void compare(SylinderSystem &s, const std::vector<Line> &lines, const SylinderConfig &c) {
    auto now = sys::particles(s);
    VP_CHECK(now.size() == lines.size(), "%zu particles, the file lists %zu", now.size(), lines.size());
    std::map<int, const Sylinder *> by;
    for (auto &p : now)
        VP_CHECK(by.insert({p.gid, &p}).second, "id %d twice", p.gid);
    for (auto &l : lines) {
        auto it = by.find(l.gid);
        if (it == by.end()) {
            VP_CHECK(false, "particle %d of the file is missing", l.gid);
            continue;
        }
        const Sylinder &p = *it->second;
        Evec3 m = ECmap3(l.m), q = ECmap3(l.p), ce = 0.5 * (m + q), d = q - m;
        VP_CHECK(p.group == (l.hasGroup ? l.group : -1), "particle %d: group %d, the file says %d%s", l.gid, p.group, l.group, l.hasGroup ? "" : " (absent: -1)");
        VP_CHECK(p.isImmovable == (l.type == 'S'), "particle %d of type %c is %simmovable", l.gid, l.type, p.isImmovable ? "" : "not ");
        VP_CHECK(p.radius == l.r && p.radiusCollision == l.r, "particle %d: radius %g (collision %g), the file says %g", l.gid, p.radius, p.radiusCollision, l.r);
        double L = d.norm();
        VP_CHECK(vp::near(p.length, L, 1e-13 * (1 + L)) && vp::near(p.lengthCollision, L, 1e-13 * (1 + L)), "particle %d: length %.17g (collision %.17g), the ends are %.17g apart", l.gid,
                 p.length, p.lengthCollision, L);
        for (int k = 0; k < 3; k++) {
            double e = p.pos[k] - ce[k], B = c.simBoxHigh[k] - c.simBoxLow[k];
            if (l.out && c.simBoxPBC[k])
                e -= B * std::round(e / B);
            VP_CHECK(std::fabs(e) < 1e-12 * (1 + std::fabs(ce[k])), "particle %d: centre[%d] %.17g, the middle of the ends is %.17g", l.gid, k, p.pos[k], ce[k]);
        }
        Equatn o = ECmapq(p.orientation);
        VP_CHECK(std::fabs(o.norm() - 1) < 1e-6, "particle %d: orientation is no unit quaternion (%g)", l.gid, o.norm());
        if (L > 1e-6)
            VP_CHECK((sys::axis(p.orientation) - d / L).norm() < 1e-7, "particle %d: wrong direction, off by %g", l.gid, (sys::axis(p.orientation) - d / L).norm());
        vp::count("file_particles");
    }
}

// every line of the lattice: type x group x radius x direction x length, in one file
static std::vector<Line> lattice(int variant, bool out) {
    std::vector<Line> v;
    const int groups[] = {-1, -1, 0, 7, 2147483647, -5};
    const double scales[] = {0, 1e-8, 1e-5, 0.37, 2.5};
    int i = 0;
    for (char t : {'C', 'S'})
        for (int g = 0; g < 6; g++)
            for (double r : {0.5, 0.001})
                for (int sc = 0; sc < 5; sc++)
                    for (int x = -1; x <= 1; x++)
                        for (int y = -1; y <= 1; y++)
                            for (int z = -1; z <= 1; z++) {
                                if (sc && !x && !y && !z)
                                    continue;
                                if (!sc && (x || y || z))
                                    continue;
                                i++;
                                if ((i + variant) % 5 > 2 && !vp::S().thorough)
                                    continue;
                                Line l;
                                l.type = t;
                                l.hasGroup = g > 0;
                                l.group = groups[g];
                                l.r = r;
                                // ids: a permutation, with gaps, up to the largest integer
                                l.gid = variant % 2 ? 2147483647 - 3 * i : (i * 7919) % 100003;
                                Evec3 d = scales[sc] * Evec3(x, variant % 3 == 1 ? 0.01 * y : y, z);
                                uint64_t h = mx(i);
                                l.out = out && h % 3 == 0;
                                for (int k = 0; k < 3; k++) {
                                    h = mx(h + k);
                                    double ce = 0.01 + 7.98 * (h >> 11) / 9007199254740992.0;
                                    if (l.out)
                                        ce += 8 * (int(h % 5) - 2);
                                    if (d[k] == 0 && h % 4 == 0)
                                        ce = std::floor(ce * 4) / 4 + 0.125;
                                    l.m[k] = ce - 0.5 * d[k];
                                    l.p[k] = ce + 0.5 * d[k];
                                }
                                v.push_back(l);
                            }
    return v;
}

static void writeFile(const char *fn, const std::vector<Line> &v, const std::vector<std::pair<int, int>> &links, int fmt) {
    if (sys::rank == 0) {
        FILE *f = fopen(fn, "w");
        fprintf(f, "%zu\n%s\n", v.size(), fmt % 2 ? "0.25" : "# time 0");
        auto ln = [&]() {
            for (auto &l : links)
                fprintf(f, "L %d %d\n", l.first, l.second);
        };
        if (fmt == 1)
            ln();
        size_t i = 0, k = 0;
        for (auto &l : v) {
            const char *sp = fmt == 2 ? "\t" : fmt == 3 ? "  " : " ";
            const char *nf = fmt == 3 ? "%.17e" : "%.17g";
            fprintf(f, "%c%s%d%s", l.type, sp, l.gid, sp);
            fprintf(f, nf, l.r);
            for (int q = 0; q < 6; q++) {
                fprintf(f, "%s", sp);
                fprintf(f, nf, q < 3 ? l.m[q] : l.p[q - 3]);
            }
            if (l.hasGroup)
                fprintf(f, "%s%d", sp, l.group);
            fprintf(f, fmt == 2 ? " \n" : "\n");
            if (fmt == 3 && i % 7 == 0)
                fprintf(f, "\n# a comment C 5\n");
            if (fmt == 3 && i % 5 == 0 && k < links.size()) {
                fprintf(f, "L  %d\t%d\n", links[k].first, links[k].second);
                k++;
            }
            i++;
        }
        if (fmt == 3)
            for (; k < links.size(); k++)
                fprintf(f, "L %d %d\n", links[k].first, links[k].second);
        if (fmt == 0 || fmt == 2)
            ln();
        fclose(f);
    }
    MPI_Barrier(MPI_COMM_WORLD);
}

static void files() {
    for (int variant = 0; variant < 5; variant++)
        for (int fmt = 0; fmt < 4; fmt++)
            for (int pbc = 0; pbc < 3; pbc++) {
                if (!vp::begin(vp::fmt("file variant=%d format=%d pbc=%d", variant, fmt, pbc)))
                    continue;
                auto c = sys::config();
                for (int k = 0; k < 3; k++)
                    c.simBoxPBC[k] = pbc == 2 || (pbc == 1 && k != 1);
                auto v = lattice(variant, pbc > 0);
                std::vector<std::pair<int, int>> l;
                for (size_t i = 0; i + 1 < v.size() && i < 150; i += 3) {
                    l.push_back({v[i].gid, v[i + 1].gid});
                    if (i % 2)
                        l.push_back({v[i].gid, v[i + 2 < v.size() ? i + 2 : 0].gid}); // two links from one particle
                    if (i % 4 == 0)
                        l.push_back({v[i + 1].gid, v[i].gid}); // and back
                }
                if (variant == 4)
                    l.clear();
                writeFile("in.dat", v, l, fmt);
                std::multiset<std::pair<int, int>> want(l.begin(), l.end());
                auto s = open(c, "in.dat");
                compare(*s, v, c);
                checkMaps(*s, want);
                vp::count("files");
                vp::nontrivial();
            }
}

// ---- generator
static int mode;
static bool script(unsigned long seed, unsigned long long pos, double &u) {
    if (mode == 0)
        return false;
    static const double ext[] = {1.1e-16, 1 - 1.2e-16, 0.25, 0.7500001, 0.4999, 0.03, 0.97};
    uint64_t h = mx(mx(pos * 31 + mode) + seed);
    u = mode == 1 ? ext[h % 2 ? (h >> 8) % 7 : (h >> 8) % 2] : ((h >> 16) % 8 + 0.5) / 8;
    return true;
}

static void generated() {
    trng::stub::script() = script;
    struct Box {
        double lo[3], hi[3], slo[3], shi[3];
    };
    const Box boxes[] = {{{0, 0, 0}, {8, 8, 8}, {0, 0, 0}, {8, 8, 8}},
                         {{-3, 1, 10}, {-1, 5, 13}, {-10, -2, 8}, {10, 6, 20}},
                         {{100, -7.3, -0.1}, {111, -1.1, 20}, {100, -7.3, -0.1}, {111, -1.1, 20}}};
    const double ori[] = {-1, -0.5, 0, 0.6, 1, 2};
    long idx = 0;
    for (int b = 0; b < 3; b++)
        for (int circ = 0; circ < 2; circ++)
            for (int sig = 0; sig < 2; sig++)
                for (mode = 0; mode < 3; mode++)
                    for (int o = 0; o < 216; o++) {
                        const double ov[3] = {ori[o / 36], ori[o / 6 % 6], ori[o % 6]};
                        if (ov[0] == 0 && ov[1] == 0 && ov[2] == 0)
                            continue; // no direction
                        idx++;
                        bool all = ov[0] > 1 && ov[1] > 1 && ov[2] > 1;
                        if (!all && idx % (vp::S().thorough ? 1 : sys::nproc > 1 ? 7 : 1))
                            continue;
                        int N = all ? (mode == 0 ? 4000 : 300) : (idx % 3 == 0 ? 1 : idx % 3 == 1 ? 9 : 40);
                        if (!vp::begin(vp::fmt("gen box=%d circ=%d sigma=%d mode=%d orient=%g,%g,%g N=%d", b, circ, sig, mode, ov[0], ov[1], ov[2], N)))
                            continue;
                        auto c = sys::config();
                        c.rngSeed = 17 + idx;
                        double edge = 1e300;
                        for (int k = 0; k < 3; k++) {
                            c.simBoxLow[k] = boxes[b].slo[k];
                            c.simBoxHigh[k] = boxes[b].shi[k];
                            c.simBoxPBC[k] = (idx >> k) & 1;
                            c.initBoxLow[k] = boxes[b].lo[k];
                            c.initBoxHigh[k] = boxes[b].hi[k];
                            c.initOrient[k] = ov[k] > 1 && (idx % 2) ? -3 : ov[k];
                            edge = std::min(edge, c.initBoxHigh[k] - c.initBoxLow[k]);
                        }
                        c.sylinderNumber = N;
                        c.sylinderDiameter = idx % 2 ? 0.3 : 0.024;
                        c.sylinderLength = sig ? -0.5 : 0.77;
                        c.sylinderLengthSigma = sig ? 0.8 : (idx % 2 ? -1 : 0);
                        c.initCircularX = circ;
                        auto s = open(c, "none.dat");
                        auto p = sys::particles(*s);
                        VP_CHECK((int)p.size() == N, "%zu particles instead of %d", p.size(), N);
                        std::set<int> ids;
                        Emat3 mom = Emat3::Zero();
                        double m4 = 0, r2 = 0, lens = 0, len2 = 0;
                        Evec3 mean = Evec3::Zero(), cpos = Evec3::Zero();
                        Evec3 frame = Evec3::Zero();
                        for (auto &a : p) {
                            ids.insert(a.gid);
                            VP_CHECK(a.gid >= 0 && a.gid < N, "id %d, there are %d particles", a.gid, N);
                            VP_CHECK(!a.isImmovable, "generated particle %d is immovable", a.gid);
                            VP_CHECK(a.radius == c.sylinderDiameter / 2 && a.radiusCollision == a.radius, "particle %d: radius %g, the diameter is %g", a.gid, a.radius, c.sylinderDiameter);
                            if (!sig)
                                VP_CHECK(a.length == c.sylinderLength, "particle %d: length %g instead of %g", a.gid, a.length, c.sylinderLength);
                            else
                                VP_CHECK(a.length > 0 && a.length < 0.5 * edge, "particle %d: random length %g, the box has %g", a.gid, a.length, edge);
                            VP_CHECK(a.lengthCollision == a.length, "particle %d: collision length", a.gid);
                            for (int k = 0; k < 3; k++) {
                                double tol = 1e-12 * (1 + std::fabs(c.initBoxLow[k]) + std::fabs(c.initBoxHigh[k]));
                                VP_CHECK(a.pos[k] >= c.initBoxLow[k] - tol && a.pos[k] <= c.initBoxHigh[k] + tol, "particle %d: pos[%d] = %.17g outside the initial box %g %g", a.gid, k, a.pos[k],
                                         c.initBoxLow[k], c.initBoxHigh[k]);
                                cpos[k] += (a.pos[k] - c.initBoxLow[k]) / (c.initBoxHigh[k] - c.initBoxLow[k]) / N;
                            }
                            if (circ) {
                                double R = 0.5 * std::min(c.initBoxHigh[1] - c.initBoxLow[1], c.initBoxHigh[2] - c.initBoxLow[2]);
                                double y = a.pos[1] - 0.5 * (c.initBoxHigh[1] + c.initBoxLow[1]), z = a.pos[2] - 0.5 * (c.initBoxHigh[2] + c.initBoxLow[2]);
                                VP_CHECK(std::hypot(y, z) <= R * (1 + 1e-12) + 1e-12, "particle %d: %g from the axis, the circle has radius %g", a.gid, std::hypot(y, z), R);
                                r2 += (y * y + z * z) / (R * R) / N;
                            }
                            Equatn q = ECmapq(a.orientation);
                            VP_CHECK(std::fabs(q.norm() - 1) < 1e-6, "particle %d: orientation is no unit quaternion", a.gid);
                            Evec3 ax = sys::axis(a.orientation);
                            mom += ax * ax.transpose() / N;
                            m4 += std::pow(ax[2], 4) / N;
                            mean += ax / N;
                            frame += (q * Evec3(1, 0, 0)) / N;
                            lens += std::log(a.length) / N;
                            len2 += a.length / N;
                            if (!all) {
                                double scale = -1;
                                for (int k = 0; k < 3; k++)
                                    if (ov[k] <= 1 && ov[k] != 0 && std::fabs(ov[k]) > 0.4)
                                        scale = std::max(scale, ax[k] / ov[k]); // length of the requested vector is 1/scale
                                for (int k = 0; k < 3; k++) {
                                    if (ov[k] <= 1 && ov[k] == 0)
                                        VP_CHECK(std::fabs(ax[k]) < 1e-7, "particle %d: axis (%g %g %g), the component %d is set to 0", a.gid, ax[0], ax[1], ax[2], k);
                                    else if (ov[k] <= 1)
                                        VP_CHECK(scale > 0 && std::fabs(ax[k] - scale * ov[k]) < 1e-7, "particle %d: axis (%g %g %g), requested (%g %g %g)", a.gid, ax[0], ax[1], ax[2], ov[0], ov[1],
                                                 ov[2]);
                                    else if (scale > 0)
                                        VP_CHECK(std::fabs(ax[k]) <= scale + 1e-7, "particle %d: random component %d out of range", a.gid, k);
                                }
                            }
                            vp::count("generated_particles");
                        }
                        VP_CHECK((int)ids.size() == N, "%zu distinct ids of %d", ids.size(), N);
                        if (all && mode == 0) { // 4000 particles: ten standard deviations
                            double t = 10 / std::sqrt(N);
                            VP_CHECK((mom - Emat3::Identity() / 3.0).cwiseAbs().maxCoeff() < 0.3 * t && mean.cwiseAbs().maxCoeff() < 0.58 * t && frame.cwiseAbs().maxCoeff() < 0.58 * t &&
                                         std::fabs(m4 - 0.2) < 0.27 * t,
                                     "random directions are not uniform: <nz^2>=%g <nz^4>=%g <n>=(%g %g %g)", mom(2, 2), m4, mean[0], mean[1], mean[2]);
                            VP_CHECK((cpos - Evec3(0.5, 0.5, 0.5)).cwiseAbs().maxCoeff() < 0.29 * t, "centres are not spread over the box: mean (%g %g %g)", cpos[0], cpos[1], cpos[2]);
                            if (circ)
                                VP_CHECK(std::fabs(r2 - 0.5) < 0.29 * t, "centres are not uniform in the circle: <r^2>/R^2=%g", r2);
                            vp::count("distributions");
                        }
                        if (all)
                            vp::nontrivial();
                        vp::nontrivial();
                        vp::outcome(mx(N * 8 + circ * 4 + sig * 2) + o);
                        vp::count("generated_systems");
                    }
    trng::stub::script() = nullptr;
}

int main(int argc, char **argv) {
    sys::start(argc, argv);
    files();
    generated();
    sys::stop();
}
