// C24: distributing / collecting points, shifting, scaling and generating points.
#include "mp.hpp"
#include "Util/PointDistribution.hpp"
using namespace mp;
static double val(int i) { return 0.5 + i * 1.25; }
static void roundTrip(int n, int dim, int all) {
    if (!vp::begin(vp::fmt("dist n%d dim%d all%d", n, dim, all)))
        return;
    std::vector<double> v;
    if (rank == 0)
        for (int i = 0; i < n * dim; i++)
            v.push_back(val(i));
    else
        v.assign((n + rank) % 4, -1.0); // content of other ranks is replaced
    distributePts(v, dim);
    std::vector<int> c;
    auto g = gather(v, &c);
    int off = 0, lo = 1 << 30, hi = 0;
    VP_CHECK((int)g.size() == n * dim, "%zu values after distribution, %d before", g.size(), n * dim);
    for (int r = 0; r < np; r++) {
        VP_CHECK(c[r] % dim == 0, "rank %d holds %d values, a point was torn", r, c[r]);
        lo = std::min(lo, c[r] / dim);
        hi = std::max(hi, c[r] / dim);
        off += c[r];
    }
    for (size_t i = 0; i < g.size(); i++)
        VP_CHECK(g[i] == val(i), "value %zu changed", i);
    VP_CHECK(hi - lo <= 1, "unbalanced: %d to %d points per rank", lo, hi);
    uint64_t h = vp::mix(n, dim);
    for (int x : c)
        h = vp::mix(h, x);
    if (all)
        collectPtsAll(v);
    else
        collectPts(v);
    if (rank == 0 || all) {
        VP_CHECK((int)v.size() == n * dim, "%zu values collected, %d expected", v.size(), n * dim);
        for (size_t i = 0; i < v.size(); i++)
            VP_CHECK(v[i] == val(i), "collected value %zu changed", i);
    }
    if (n)
        vp::nontrivial();
    vp::outcome(h);
    vp::S().states++;
}
static void collect(const std::vector<int> &c, const std::string &k, int all) {
    if (!vp::begin(vp::fmt("collect %s all%d", k.c_str(), all)))
        return;
    std::vector<double> v, e;
    for (int r = 0; r < np; r++)
        for (int i = 0; i < c[r]; i++) {
            e.push_back(val(r * 1000 + i));
            if (r == rank)
                v.push_back(val(r * 1000 + i));
        }
    if (all)
        collectPtsAll(v);
    else
        collectPts(v);
    if (rank == 0 || all)
        VP_CHECK(v == e, "collected %zu values, expected %zu in rank order", v.size(), e.size());
    vp::nontrivial();
    vp::outcome(k);
    vp::S().states++;
}
static void inBox(const std::vector<double> &v, double lo, double hi, const char *w) {
    double t = 1e-12 * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi)));
    for (double x : v)
        VP_CHECK(x >= lo - t && x <= hi + t, "%s: %.17g outside [%g,%g]", w, x, lo, hi);
}
int main(int argc, char **argv) {
    start(argc, argv);
    const bool th = vp::S().thorough;
    for (int n = 0; n <= (th ? 200 : 40); n++)
        for (int dim = 1; dim <= 7; dim++)
            for (int all = 0; all < 2; all++)
                roundTrip(n, dim, all);
    for (int n : {97, 1000, 4097, 100003})
        for (int dim : {1, 3, 6})
            for (int all = 0; all < 2; all++)
                roundTrip(n, dim, all);
    const int top = np <= 2 ? 6 : np == 3 ? 4 : np == 4 ? 3 : 2;
    uint64_t tot = 1;
    for (int i = 0; i < np; i++)
        tot *= top;
    for (uint64_t w = 0; w < tot; w++) {
        std::vector<int> c;
        std::string k;
        uint64_t x = w;
        for (int i = 0; i < np; i++) {
            c.push_back(x % top);
            k += char('0' + x % top);
            x /= top;
        }
        for (int all = 0; all < 2; all++)
            collect(c, k, all);
    }
    for (double box : {1.0, 0.25, 3.0, 100.0})
        for (double shift : {0.0, -0.5, 2.0, -1000.0, 0.1}) {
            for (int n : {0, 1, 2, 3, 4}) {
                if (vp::begin(vp::fmt("fixed %g %g %d", box, shift, n))) {
                    std::vector<double> v;
                    fixedPoints(n, box, shift, v);
                    VP_CHECK((int)v.size() == (n == 1 || n == 2 || n == 4 ? 3 * n : 0), "fixedPoints(%d) gives %zu values", n, v.size());
                    inBox(v, shift, shift + box, "fixedPoints");
                    vp::nontrivial();
                }
                if (vp::begin(vp::fmt("random %g %g %d", box, shift, n))) {
                    std::vector<double> v, v2(5, 7.0);
                    randomPoints(n, box, shift, v);
                    VP_CHECK((int)v.size() == 3 * (n + 1) * (n + 1) * (n + 1), "randomPoints(%d) gives %zu values", n, v.size());
                    inBox(v, shift, shift + box, "randomPoints");
                    randomPoints(n, box, shift, v2);
                    VP_CHECK(v == v2, "randomPoints is not reproducible");
                    vp::nontrivial();
                    vp::outcome(vp::fnv(v.data(), v.size() * 8));
                }
            }
            for (int n = 0; n < 6; n++)
                for (int s = 0; s < 3; s++)
                    if (vp::begin(vp::fmt("scale %g %g %d %d", box, shift, n, s))) {
                        std::vector<double> v;
                        for (int i = 0; i < 3 * n; i++)
                            v.push_back(0.1 * i - 0.3);
                        auto o = v;
                        double sh[3] = {shift, shift + s, -2 * shift};
                        shiftAndScalePoints(v, sh, box);
                        VP_CHECK(v.size() == o.size(), "size changed");
                        for (int i = 0; i < (int)v.size(); i++)
                            VP_CHECK(vp::near(v[i], o[i] * box + sh[i % 3], 1e-12 * (1 + std::fabs(shift) * 2 + box)), "component %d", i);
                        vp::nontrivial();
                    }
        }
    for (double lo : {-1.0, 0.0, 5.0})
        for (double w : {1.0, 0.001, 1e6})
            for (int seed = 0; seed < (th ? 200 : 20); seed++)
                if (vp::begin(vp::fmt("uniform %g %g %d", lo, w, seed))) {
                    std::vector<double> v(300), u(300), x(300);
                    randomUniformFill(v, lo, lo + w, seed);
                    inBox(v, lo, lo + w, "randomUniformFill");
                    randomUniformFill(u, lo, lo + w, seed);
                    VP_CHECK(u == v, "not reproducible");
                    randomUniformFill(x, lo, lo + w, seed + 1);
                    VP_CHECK(x != v, "seed has no effect");
                    double m = 0;
                    for (double q : v)
                        m += (q - lo) / w / v.size();
                    VP_CHECK(m > 0.4 && m < 0.6, "mean %g", m);
                    randomLogNormalFill(v, 2.0, 0.5, seed);
                    double lm = 0, lv = 0;
                    for (double q : v) {
                        VP_CHECK(q > 0, "log-normal value %g", q);
                        lm += log(q) / v.size();
                    }
                    for (double q : v)
                        lv += (log(q) - lm) * (log(q) - lm) / v.size();
                    VP_CHECK(std::fabs(lm - log(2.0)) < 0.2 && sqrt(lv) > 0.38 && sqrt(lv) < 0.62, "log-normal parameters %g %g", lm, sqrt(lv));
                    vp::nontrivial();
                    vp::outcome(vp::fnv(v.data(), v.size() * 8));
                }
    stop();
}
