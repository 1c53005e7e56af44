// C14: snapshots written by the library for enumerated systems and field values, read back by the VTK readers and by an independent text reader.
#include <fstream>
#include "sys.hpp"
#include "vtk.hpp"
#include <set>

static uint64_t mx(uint64_t z) { return trng::stub::mix(z); }
// values of both signs over many magnitudes, all of them within the range of a 32-bit float
static double val(uint64_t k) {
    uint64_t h = mx(k);
    static const double sp[] = {0, -0.0, 1, -1, 0.1, 1e-30, -1e30, 16777217, 3.3e38, 1e-44};
    if (h % 7 == 0)
        return sp[(h >> 8) % 10];
    return ((h >> 20) % 2000001 - 1e6) * std::pow(10.0, int((h >> 8) % 13) - 9);
}

struct Field {
    const char *name;
    double *(*at)(Sylinder &);
};
#define F(n, m)                                                                                                                                                                              \
    {                                                                                                                                                                                        \
        n, [](Sylinder &s) -> double * { return s.m; }                                                                                                                                       \
    }
static const std::vector<Field> fields = {F("vel", vel),
                                          F("omega", omega),
                                          F("velCollision", velCol),
                                          F("omegaCollision", omegaCol),
                                          F("velBilateral", velBi),
                                          F("omegaBilateral", omegaBi),
                                          F("velNonBrown", velNonB),
                                          F("omegaNonBrown", omegaNonB),
                                          F("force", force),
                                          F("torque", torque),
                                          F("forceCollision", forceCol),
                                          F("torqueCollision", torqueCol),
                                          F("forceBilateral", forceBi),
                                          F("torqueBilateral", torqueBi),
                                          F("forceNonBrown", forceNonB),
                                          F("torqueNonBrown", torqueNonB),
                                          F("velBrown", velBrown),
                                          F("omegaBrown", omegaBrown)};

static void scramble(Sylinder &s, uint64_t k) {
    for (size_t f = 0; f < fields.size(); f++)
        for (int c = 0; c < 3; c++)
            fields[f].at(s)[c] = val(k * 1000 + f * 3 + c);
    double q[4];
    for (int c = 0; c < 4; c++)
        q[c] = (int(mx(k * 77 + c) % 2001) - 1000) * 1e-3 + 1e-4;
    double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    for (int c = 0; c < 4; c++)
        s.orientation[c] = q[c] / n;
    s.isImmovable = mx(k) % 3 == 0;
    s.group = mx(k) % 5 == 0 ? 2147483647 : mx(k) % 5 == 1 ? -2147483647 : int(mx(k + 1) % 100);
    s.radius = 0.01 + mx(k * 3) % 1000 * 0.001;
    s.radiusCollision = s.radius * 1.3;
    s.length = mx(k * 5) % 4 ? 0.1 + mx(k * 7) % 1000 * 0.002 : 0;
    s.lengthCollision = s.length * 1.7 + 0.1;
}

static bool f32(double got, double want) { return got == (double)(float)want; }

// every particle of `all` exactly once in the piece data of the snapshot
static void checkParticles(std::vector<Sylinder> all, const std::string &folder, const std::string &id, int np) {
    auto d = vtk::readP(folder + "Sylinder_" + id + ".pvtp");
    if (!d.ok) {
        VP_CHECK(false, "%s", d.err.c_str());
        return;
    }
    const long n = all.size();
    VP_CHECK(d.points == 2 * n && d.lines == n, "%ld points and %ld lines for %ld particles", d.points, d.lines, n);
    VP_CHECK(d.pos.type == "Float64" || !n, "positions are %s", d.pos.type.c_str());
    std::map<std::string, std::string> want = {{"gid", "Int32"}, {"group", "Int32"}, {"isImmovable", "UInt8"}};
    std::map<std::string, int> comp;
    for (auto &s : {"radius", "radiusCollision", "length", "lengthCollision"})
        want[s] = "Float32";
    for (auto &f : fields)
        want[f.name] = "Float32", comp[f.name] = 3;
    want["xnorm"] = want["znorm"] = "Float32";
    comp["xnorm"] = comp["znorm"] = 3;
    for (auto &w : want) {
        auto it = d.cell.find(w.first);
        if (it == d.cell.end()) {
            VP_CHECK(n == 0, "field %s is missing", w.first.c_str());
            continue;
        }
        int c = comp.count(w.first) ? comp[w.first] : 1;
        VP_CHECK(it->second.type == w.second && it->second.comp == c, "field %s is %s with %d components", w.first.c_str(), it->second.type.c_str(), it->second.comp);
        VP_CHECK((long)it->second.v.size() == n * c, "field %s has %zu values", w.first.c_str(), it->second.v.size());
    }
    if (n)
        VP_CHECK(d.cell.size() == want.size() && d.point.size() == 1, "%zu cell and %zu point fields instead of %zu and 1", d.cell.size(), d.point.size(), want.size());
    std::map<int, Sylinder *> by;
    for (auto &s : all)
        by[s.gid] = &s;
    std::set<int> seen;
    std::set<long> pts;
    for (long i = 0; i < d.lines && i < (long)d.line.size(); i++) {
        int g = (int)d.c("gid", i)[0];
        auto it = by.find(g);
        VP_CHECK(it != by.end() && seen.insert(g).second, "particle %d is %s", g, it == by.end() ? "unknown" : "written twice");
        if (it == by.end())
            continue;
        Sylinder &s = *it->second;
        VP_CHECK((int)d.c("group", i)[0] == s.group && (d.c("isImmovable", i)[0] == 1) == s.isImmovable && d.c("isImmovable", i)[0] <= 1, "particle %d: group %g immovable %g, they are %d %d", g,
                 d.c("group", i)[0], d.c("isImmovable", i)[0], s.group, s.isImmovable);
        VP_CHECK(f32(d.c("radius", i)[0], s.radius) && f32(d.c("radiusCollision", i)[0], s.radiusCollision) && f32(d.c("length", i)[0], s.length) &&
                     f32(d.c("lengthCollision", i)[0], s.lengthCollision),
                 "particle %d: sizes", g);
        for (auto &f : fields)
            for (int c = 0; c < 3; c++)
                VP_CHECK(f32(d.c(f.name, i)[c], f.at(s)[c]), "particle %d: %s[%d] is %g in the file, %g in the system", g, f.name, c, d.c(f.name, i)[c], f.at(s)[c]);
        Equatn q = ECmapq(s.orientation);
        Evec3 x = q * Evec3(1, 0, 0), z = q * Evec3(0, 0, 1), ce = ECmap3(s.pos);
        for (int c = 0; c < 3; c++)
            VP_CHECK(std::fabs(d.c("xnorm", i)[c] - x[c]) < 2e-7 && std::fabs(d.c("znorm", i)[c] - z[c]) < 2e-7, "particle %d: frame", g);
        VP_CHECK(d.line[i].size() == 2, "particle %d is a line of %zu points", g, d.line[i].size());
        for (int e = 0; e < 2 && e < (int)d.line[i].size(); e++) {
            long k = d.line[i][e];
            VP_CHECK(pts.insert(k).second, "particle %d shares a point", g);
            VP_CHECK((int)d.p("endLabel", k)[0] == e, "particle %d: end %d is labelled %g", g, e, d.p("endLabel", k)[0]);
            Evec3 w = ce + (e - 0.5) * s.length * z;
            for (int c = 0; c < 3; c++)
                VP_CHECK(3 * k + c < (long)d.pos.v.size() && std::fabs(d.pos.v[3 * k + c] - w[c]) < 1e-13 * (1 + std::fabs(w[c]) + s.length), "particle %d: end %d", g, e);
        }
        vp::count("vtk_particles");
    }
    VP_CHECK((long)seen.size() == n, "%zu of %ld particles are in the file", seen.size(), n);
    if (n) {
        auto it = d.point.find("endLabel");
        VP_CHECK(it != d.point.end() && it->second.type == "UInt8", "endLabel is %s", it == d.point.end() ? "missing" : it->second.type.c_str());
    }
    (void)np;
}

static void checkHeader(const std::string &folder, const std::string &base, const std::string &id, int np) {
    auto h = vtk::head(folder + base + "_" + id + ".pvtp");
    VP_CHECK(h.ok && h.closed, "the header %s is not complete", base.c_str());
    std::set<std::string> names(h.pieces.begin(), h.pieces.end());
    VP_CHECK((int)h.pieces.size() == np && (int)names.size() == np, "the header lists %zu pieces for %d ranks", h.pieces.size(), np);
    VP_CHECK(h.dup == 0, "the header lists an array twice");
    for (auto &p : h.pieces) {
        auto q = vtk::head(folder + p);
        VP_CHECK(q.ok && q.closed, "piece %s is missing or not complete", p.c_str());
        VP_CHECK(q.dup == 0, "piece %s holds an array twice", p.c_str());
        for (auto sec : {"PointData", "CellData"})
            VP_CHECK(q.sec[sec] == h.sec[sec], "%s of piece %s has %zu arrays, the header declares %zu, or their types differ", sec, p.c_str(), q.sec[sec].size(), h.sec[sec].size());
        VP_CHECK(q.sec["Points"].size() == 1 && h.sec["Points"].size() == 1 && q.sec["Points"].begin()->second == h.sec["Points"].begin()->second, "points of piece %s", p.c_str());
        auto one = vtk::read1(folder + p);
        VP_CHECK(one.ok, "%s", one.err.c_str());
        vp::count("pieces");
    }
}

typedef std::vector<double> Key;
static Key key(const ConstraintBlock &b) {
    Key k = {(double)b.gidI, (double)b.gidJ, (double)b.globalIndexI, (double)b.globalIndexJ, (double)b.oneSide, (double)b.bilateral, (double)(float)b.delta0, (double)(float)b.gamma,
             (double)(float)b.kappa};
    for (int i = 0; i < 3; i++) {
        k.push_back((float)b.posI[i]);
        k.push_back((float)b.posJ[i]);
        k.push_back((float)b.normI[i]);
        k.push_back((float)b.normJ[i]);
        k.push_back(b.labI[i]);
        k.push_back(b.labJ[i]);
    }
    for (int i = 0; i < 9; i++)
        k.push_back((float)b.stress[i]);
    for (auto &x : k)
        x += 0.0; // -0
    return k;
}
static void checkBlocks(const std::vector<ConstraintBlock> &all, const std::string &folder, const std::string &base, const std::string &id, int np) {
    auto d = vtk::readP(folder + base + "_" + id + ".pvtp");
    if (!d.ok) {
        VP_CHECK(false, "%s", d.err.c_str());
        return;
    }
    const long n = all.size();
    VP_CHECK(d.points == 2 * n && d.lines == n, "%ld points and %ld lines for %ld constraints", d.points, d.lines, n);
    std::map<std::string, std::pair<std::string, int>> pw = {{"gid", {"Int32", 1}}, {"globalIndex", {"Int32", 1}}, {"posIJ", {"Float32", 3}}, {"normIJ", {"Float32", 3}}},
                                                       cw = {{"oneSide", {"Int32", 1}}, {"bilateral", {"Int32", 1}}, {"delta0", {"Float32", 1}},
                                                             {"gamma", {"Float32", 1}},  {"kappa", {"Float32", 1}},    {"Stress", {"Float32", 9}}};
    if (n) {
        VP_CHECK(d.pos.type == "Float64", "positions are %s", d.pos.type.c_str());
        for (int s = 0; s < 2; s++)
            for (auto &w : s ? cw : pw) {
                auto &m = s ? d.cell : d.point;
                auto it = m.find(w.first);
                VP_CHECK(it != m.end() && it->second.type == w.second.first && it->second.comp == w.second.second && (long)it->second.v.size() == n * w.second.second * (s ? 1 : 2),
                         "field %s of the constraints is %s", w.first.c_str(), it == m.end() ? "missing" : (it->second.type + "x" + std::to_string(it->second.comp)).c_str());
            }
        VP_CHECK(d.point.size() == pw.size() && d.cell.size() == cw.size(), "%zu point and %zu cell fields", d.point.size(), d.cell.size());
    }
    std::multiset<Key> want, have;
    for (auto &b : all)
        want.insert(key(b));
    for (long i = 0; i < d.lines && i < (long)d.line.size(); i++) {
        if (d.line[i].size() != 2) {
            VP_CHECK(false, "constraint %ld is a line of %zu points", i, d.line[i].size());
            continue;
        }
        long I = d.line[i][0], J = d.line[i][1];
        Key k = {d.p("gid", I)[0], d.p("gid", J)[0], d.p("globalIndex", I)[0], d.p("globalIndex", J)[0], d.c("oneSide", i)[0], d.c("bilateral", i)[0], d.c("delta0", i)[0], d.c("gamma", i)[0],
                 d.c("kappa", i)[0]};
        for (int c = 0; c < 3; c++) {
            k.push_back(d.p("posIJ", I)[c]);
            k.push_back(d.p("posIJ", J)[c]);
            k.push_back(d.p("normIJ", I)[c]);
            k.push_back(d.p("normIJ", J)[c]);
            k.push_back(d.pos.v[3 * I + c]);
            k.push_back(d.pos.v[3 * J + c]);
        }
        for (int c = 0; c < 9; c++)
            k.push_back(d.c("Stress", i)[c]);
        for (auto &x : k)
            x += 0.0;
        have.insert(k);
        vp::count("vtk_constraints");
    }
    VP_CHECK(have == want, "the %zu constraints in the file are not the %zu of the system", have.size(), want.size());
    (void)np;
}

static void checkText(std::vector<Sylinder> all, const std::multiset<std::pair<int, int>> &links, const std::string &fn, double time) {
    auto a = io::ascii(fn);
    VP_CHECK(a.ok, "%s", a.err.c_str());
    VP_CHECK(a.n == (int)all.size() && vp::near(a.time, time, 1e-6), "the text file declares %d particles at time %g, there are %zu at %g", a.n, a.time, all.size(), time);
    typedef std::multiset<std::pair<int, int>> LinkSet;
    VP_CHECK(LinkSet(a.links.begin(), a.links.end()) == links, "%zu links in the text file, there are %zu", a.links.size(), links.size());
    std::map<int, Sylinder *> by;
    for (auto &s : all)
        by[s.gid] = &s;
    std::set<int> seen;
    for (auto &r : a.rows) {
        auto it = by.find(r.gid);
        VP_CHECK(it != by.end() && seen.insert(r.gid).second, "particle %d is %s in the text file", r.gid, it == by.end() ? "unknown" : "listed twice");
        if (it == by.end())
            continue;
        Sylinder &s = *it->second;
        Evec3 z = sys::axis(s.orientation), c = ECmap3(s.pos);
        VP_CHECK(r.type == (s.isImmovable ? 'S' : 'C') && r.group == s.group && vp::near(r.radius, s.radius, 1e-7), "particle %d: type %c group %d radius %g in the text file", r.gid, r.type, r.group,
                 r.radius);
        for (int k = 0; k < 3; k++)
            VP_CHECK(vp::near(r.m[k], c[k] - 0.5 * s.length * z[k], 6e-8 * (std::fabs(c[k]) + s.length) + 1e-12) && vp::near(r.p[k], c[k] + 0.5 * s.length * z[k], 6e-8 * (std::fabs(c[k]) + s.length) + 1e-12),
                     "particle %d: ends in the text file", r.gid);
        vp::count("text_particles");
    }
    VP_CHECK(seen.size() == all.size(), "%zu of %zu particles are in the text file", seen.size(), all.size());
}

// the file of the simulation box: a grid of two points along each axis
static void checkBox(const SylinderConfig &c) {
    std::ifstream f("result/simBox.vtk");
    std::string line, t;
    VP_CHECK((bool)std::getline(f, line) && line.compare(0, 22, "# vtk DataFile Version") == 0, "the box file starts with %s", line.c_str());
    std::getline(f, line);
    bool grid = false;
    int seen = 0;
    while (f >> t) {
        if (t == "RECTILINEAR_GRID")
            grid = true;
        if (t == "DIMENSIONS") {
            int n[3] = {0, 0, 0};
            f >> n[0] >> n[1] >> n[2];
            VP_CHECK(n[0] == 2 && n[1] == 2 && n[2] == 2, "the box file declares %d %d %d points", n[0], n[1], n[2]);
        }
        for (int k = 0; k < 3; k++)
            if (t == std::string(1, "XYZ"[k]) + "_COORDINATES") {
                int n = 0;
                std::string ty;
                double lo = 0, hi = 0;
                f >> n >> ty >> lo >> hi;
                VP_CHECK(f && n == 2 && vp::near(lo, c.simBoxLow[k], 1e-5) && vp::near(hi, c.simBoxHigh[k], 1e-5), "the box file gives %g %g on axis %d, the box is %g %g", lo, hi, k,
                         c.simBoxLow[k], c.simBoxHigh[k]);
                seen++;
            }
    }
    VP_CHECK(grid && seen == 3, "the box file describes %d axes", seen);
    vp::count("box_files");
}

static void rm(const char *dir) {
    DIR *d = opendir(dir);
    if (!d)
        return;
    while (dirent *e = readdir(d))
        if (e->d_name[0] != '.')
            unlink((std::string(dir) + "/" + e->d_name).c_str());
    closedir(d);
    rmdir(dir);
}

// the writers themselves, for every split of the particles over pieces
static void writers() {
    if (sys::nproc > 1)
        return;
    for (int np = 1; np <= 5; np++)
        for (int pat = 0; pat < 6; pat++)
            for (int seed = 0; seed < (vp::S().thorough ? 20 : 3); seed++) {
                if (!vp::begin(vp::fmt("writers np=%d pattern=%d seed=%d", np, pat, seed)))
                    continue;
                mkdir("out", 0755);
                std::vector<Sylinder> all;
                std::vector<ConstraintBlock> blocks;
                auto cnt = [&](int r) { return pat == 0 ? 0 : pat == 1 ? (r == 0) : pat == 2 ? (r == np - 1) * 3 : pat == 3 ? r : pat == 4 ? 17 - 2 * r : (r % 2 ? 0 : 120); };
                for (int r = 0; r < np; r++) {
                    std::vector<Sylinder> v(cnt(r));
                    for (int i = 0; i < (int)v.size(); i++) {
                        uint64_t k = seed * 7919 + all.size() + i;
                        memset((void *)&v[i], 0, sizeof(Sylinder));
                        scramble(v[i], k);
                        for (int c = 0; c < 3; c++)
                            v[i].pos[c] = val(k * 11 + c + 5) * 1e-4;
                        v[i].gid = i % 2 ? 2147483647 - 2 * (int)(all.size() + i) : (int)(all.size() + i);
                    }
                    Sylinder::writeVTP(v, v.size(), "out/", std::to_string(seed), r);
                    all.insert(all.end(), v.begin(), v.end());
                    ConstraintCollector col;
                    auto &pool = *col.constraintPoolPtr;
                    if (seed % 2)
                        pool.resize(5);
                    for (int i = 0; i < cnt(r); i++) {
                        ConstraintBlock b;
                        uint64_t k = (seed + 31) * 7919 + blocks.size();
                        b.delta0 = val(k), b.gamma = val(k + 1), b.kappa = val(k + 2);
                        b.gidI = (int)mx(k), b.gidJ = (int)mx(k + 1), b.globalIndexI = (int)mx(k + 2), b.globalIndexJ = (int)mx(k + 3);
                        b.oneSide = mx(k) % 2, b.bilateral = mx(k) % 3 == 0;
                        for (int c = 0; c < 3; c++) {
                            b.posI[c] = val(k * 20 + c), b.posJ[c] = val(k * 20 + 3 + c), b.normI[c] = val(k * 20 + 6 + c), b.normJ[c] = val(k * 20 + 9 + c);
                            b.labI[c] = val(k * 20 + 12 + c), b.labJ[c] = val(k * 20 + 15 + c);
                        }
                        for (int c = 0; c < 9; c++)
                            b.stress[c] = val(k * 30 + c);
                        pool[mx(k + 5) % pool.size()].push_back(b);
                        blocks.push_back(b);
                    }
                    col.writeVTP("out/", pat % 2 ? "x" : "", std::to_string(seed), r);
                    if (r == np - 1)
                        col.writePVTP("out/", pat % 2 ? "x" : "", std::to_string(seed), np);
                }
                Sylinder::writePVTP("out/", std::to_string(seed), np);
                std::string cb = pat % 2 ? "xConBlock" : "ConBlock";
                checkHeader("out/", "Sylinder", std::to_string(seed), np);
                checkHeader("out/", cb, std::to_string(seed), np);
                checkParticles(all, "out/", std::to_string(seed), np);
                checkBlocks(blocks, "out/", cb, std::to_string(seed), np);
                rm("out");
                vp::count("written_sets");
                if (pat)
                    vp::nontrivial();
                vp::outcome(vp::fmt("w%d %d %d", np, pat, seed));
            }
}

// whole snapshots of real systems
static void snapshots() {
    const int counts[] = {1, 2, 5, 23, 90};
    for (int ci = 0; ci < 5; ci++)
        for (int pbc = 0; pbc < 2; pbc++)
            for (int links = 0; links < 3; links++)
                for (int wall = 0; wall < 2; wall++)
                    for (int mode = 0; mode < 3; mode++) { // 0: through the step loop, 1: after the step with arbitrary fields, 2: several snapshots
                        const int n = counts[ci];
                        if (!vp::begin(vp::fmt("snapshot n=%d pbc=%d links=%d wall=%d mode=%d", n, pbc, links, wall, mode)))
                            continue;
                        auto c = sys::config();
                        for (int k = 0; k < 3; k++)
                            c.simBoxPBC[k] = pbc, c.simBoxLow[k] = ci % 2 ? -0.125 * k * k : 0, c.simBoxHigh[k] = ci % 3 ? 8 + 0.31 * k : 8;
                        c.conMaxIte = 200;
                        c.conResTol = 1e-4;
                        c.dt = 0.015625;
                        c.timeSnap = mode == 2 ? 0.03125 : 1e6;
                        double ctr[3] = {4, 4, 4};
                        if (wall)
                            c.boundaryPtr.push_back(std::make_shared<SphereShell>(ctr, 3.0, true));
                        std::vector<sys::Part> p;
                        std::vector<Link> l;
                        for (int i = 0; i < n; i++) {
                            sys::Part a;
                            uint64_t h = mx(i * 31 + ci);
                            a.gid = wall ? i : i * 3 + 1;
                            a.group = i % 4 - 1;
                            a.imm = i % 7 == 6;
                            a.radius = 0.3 + 0.0123457 * (i % 5) * (ci % 2);
                            a.length = i % 3 ? 0.9 + 0.00345678 * (i % 4) : 0.2;
                            a.pos = Evec3(0.3 + h % 740 * 0.01, 0.3 + (h >> 10) % 740 * 0.01, 0.3 + (h >> 20) % 740 * 0.01);
                            if (ci < 3)
                                a.pos = Evec3(1 + 0.7 * i, 3.9, 4);
                            a.q = sys::dirq(0.2 + i % 3, 1 - 0.3 * (i % 5), 0.4 * (i % 4) - 0.5);
                            p.push_back(a);
                            if (i && links && (links == 2 || i % 3 == 0))
                                l.push_back(Link{p[i - 1].gid, a.gid});
                            if (i > 1 && links == 2) // a net: any two ids, either way
                                l.push_back(i % 2 ? Link{a.gid, p[i / 2].gid} : Link{p[i - 2].gid, a.gid});
                        }
                        std::multiset<std::pair<int, int>> lk;
                        for (auto &x : l)
                            lk.insert({x.prev, x.next});
                        {
                            auto s = sys::make(c, p, l);
                            if (sys::rank == 0)
                                checkBox(c);
                            int steps = mode == 2 ? 5 : 1;
                            for (int st = 0; st < steps; st++) {
                                s->prepareStep();
                                std::vector<Sylinder> before = sys::particles(*s);
                                bool due = s->getIfWriteResultCurrentStep();
                                int id = s->getSnapID();
                                s->runStep();
                                auto bl = sys::blocks(*s);
                                if (mode == 1) {
                                    auto &co = s->getContainerNonConst();
                                    for (int i = 0; i < co.getNumberOfParticleLocal(); i++)
                                        scramble(co[i], co[i].gid * 13 + ci);
                                    std::vector<Sylinder> now = sys::particles(*s);
                                    id = s->getSnapID();
                                    MPI_Barrier(MPI_COMM_WORLD);
                                    double t = s->getStepCount() * c.dt;
                                    s->writeResult();
                                    MPI_Barrier(MPI_COMM_WORLD);
                                    VP_CHECK(s->getSnapID() == id + 1, "the snapshot number goes from %d to %d", id, s->getSnapID());
                                    if (sys::rank == 0) {
                                        std::string f = s->getResultFolderWithID(id), I = std::to_string(id);
                                        checkHeader(f, "Sylinder", I, sys::nproc);
                                        checkHeader(f, "ConBlock", I, sys::nproc);
                                        checkParticles(now, f, I, sys::nproc);
                                        checkBlocks(bl, f, "ConBlock", I, sys::nproc);
                                        checkText(now, lk, f + "SylinderAscii_" + I + ".dat", t);
                                    }
                                } else if (due) {
                                    MPI_Barrier(MPI_COMM_WORLD);
                                    // the configuration before the step moved it, with the velocities and forces of this step
                                    std::vector<Sylinder> now = sys::particles(*s);
                                    std::map<int, Sylinder> b;
                                    for (auto &x : before)
                                        b[x.gid] = x;
                                    for (auto &x : now) {
                                        std::copy(b[x.gid].pos, b[x.gid].pos + 3, x.pos);
                                        std::copy(b[x.gid].orientation, b[x.gid].orientation + 4, x.orientation);
                                    }
                                    if (sys::rank == 0) {
                                        std::string f = s->getResultFolderWithID(id), I = std::to_string(id);
                                        checkHeader(f, "Sylinder", I, sys::nproc);
                                        checkHeader(f, "ConBlock", I, sys::nproc);
                                        checkParticles(now, f, I, sys::nproc);
                                        checkBlocks(bl, f, "ConBlock", I, sys::nproc);
                                        checkText(now, lk, f + "SylinderAscii_" + I + ".dat", st * c.dt);
                                    }
                                }
                                MPI_Barrier(MPI_COMM_WORLD);
                                vp::count("snapshots");
                            }
                        }
                        MPI_Barrier(MPI_COMM_WORLD);
                        if (sys::rank == 0)
                            io::clean();
                        MPI_Barrier(MPI_COMM_WORLD);
                        vp::nontrivial();
                        vp::outcome(vp::fmt("s%d %d %d %d %d", ci, pbc, links, wall, mode));
                    }
}

int main(int argc, char **argv) {
    sys::start(argc, argv);
    writers();
    snapshots();
    sys::stop();
}
