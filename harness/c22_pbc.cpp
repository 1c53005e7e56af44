// C22: findPBCImage
#include "vp.hpp"
#include "Util/GeoUtil.hpp"
template <class R>
static void one(const char *ty, R lb, R ub, R x, const char *k) {
    if (!vp::begin(vp::fmt("%s/%s/lb%.17g/ub%.17g/x%.17g", ty, k, (double)lb, (double)ub, (double)x)))
        return;
    const R L = ub - lb, x0 = x;
    findPBCImage(lb, ub, x);
    const double eps = std::numeric_limits<R>::epsilon();
    const double tol = 8 * eps * (std::fabs((double)lb) + std::fabs((double)ub)) + eps * (std::fabs((double)x0)) * (8 + std::fabs((double)x0) / L);
    VP_CHECK(x >= lb && x < ub, "image %.17g outside [%.17g,%.17g)", (double)x, (double)lb, (double)ub);
    const double n = ((double)x - (double)x0) / (double)L;
    VP_CHECK(std::fabs(n - std::round(n)) * L <= tol, "shift is %.12g box lengths", n);
    if (x0 >= lb && x0 < ub)
        VP_CHECK(x == x0, "point in the box was moved");
    else
        vp::nontrivial();
    vp::outcome(vp::fmt("%lld", vp::rnd(n, 0.5)));
}
template <class R>
static void pair(const char *ty, R lb, R ub, R x, R t, const char *k) {
    if (!vp::begin(vp::fmt("%s/%s/lb%.17g/ub%.17g/x%.17g/t%.17g", ty, k, (double)lb, (double)ub, (double)x, (double)t)))
        return;
    const R L = ub - lb, x0 = x, t0 = t;
    findPBCImage(lb, ub, x, t);
    const double eps = std::numeric_limits<R>::epsilon();
    const double mag = std::fabs((double)lb) + std::fabs((double)ub) + std::fabs((double)x0) + std::fabs((double)t0);
    const double tol = 64 * eps * mag * (1 + mag / L);
    VP_CHECK(t >= lb && t < ub, "target image %.17g outside [%.17g,%.17g)", (double)t, (double)lb, (double)ub);
    double n = ((double)t - (double)t0) / L;
    VP_CHECK(std::fabs(n - std::round(n)) * L <= tol, "target shift is %.12g box lengths", n);
    if (t0 >= lb && t0 < ub)
        VP_CHECK(t == t0, "target in the box was moved");
    n = ((double)x - (double)x0) / L;
    VP_CHECK(std::fabs(n - std::round(n)) * L <= tol, "x shift is %.12g box lengths", n);
    VP_CHECK(std::fabs((double)x - (double)t) <= 0.5 * L + tol, "image at distance %.12g of box %.12g is not the closest",
             std::fabs((double)x - (double)t), (double)L);
    vp::nontrivial();
    vp::outcome(vp::fmt("%lld/%lld", vp::rnd(n, 0.5), vp::rnd(((double)x - t) / L, 0.05)));
}
template <class R>
static void all(const char *ty) {
    const bool th = vp::S().thorough;
    const R boxes[][2] = {{0, 1}, {-1, 1}, {0, 10}, {-5, -2}, {(R)0.1, (R)0.7}, {100, 103}, {(R)-3.3, (R)4.4}, {0, (R)1e-3}, {0, 100}};
    const int N = th ? 64 : 32;
    for (auto &b : boxes) {
        const R lb = b[0], ub = b[1], L = ub - lb;
        std::vector<R> pts;
        for (int i = -3 * N; i <= 4 * N; i++)
            pts.push_back(lb + L * i / N); // includes -3L, ..., lb, ub, ..., 4L and every half box
        std::vector<R> sp;
        for (int i = -3; i <= 4; i++) // neighbours in floating point of the box edges and half points
            for (int h = 0; h < 2; h++) {
                const R e = lb + L * i + (h ? L / 2 : 0);
                R u = e, d = e;
                for (int s = 0; s < 3; s++) {
                    u = std::nextafter(u, std::numeric_limits<R>::max());
                    d = std::nextafter(d, std::numeric_limits<R>::lowest());
                    sp.push_back(u);
                    sp.push_back(d);
                }
                for (double f : {1e-300, 1e-40, 1e-20, 1e-16, 1e-12, 1e-8, 1e-4}) {
                    sp.push_back(e + (R)f * L);
                    sp.push_back(e - (R)f * L);
                }
            }
        for (double f : {1e-300, 1e-40, 1e-20, 1e-18, 1e-17})
            sp.push_back((R)-f);
        std::vector<R> ap = pts;
        ap.insert(ap.end(), sp.begin(), sp.end());
        for (R x : ap)
            one<R>(ty, lb, ub, x, "w");
        for (int m : {7, 50, 123})
            for (int i = -4; i <= 4; i++)
                one<R>(ty, lb, ub, lb + L * (m + i / (R)4), "far"), one<R>(ty, lb, ub, lb - L * (m + i / (R)4), "far");
        for (size_t i = 0; i < ap.size(); i += (th ? 1 : 2))
            for (size_t j = i % 3; j < ap.size(); j += (th ? 1 : 3))
                pair<R>(ty, lb, ub, ap[i], ap[j], "p");
    }
}
int main(int argc, char **argv) {
    vp::init(argc, argv);
    all<double>("d");
    // the 4 argument form is only used with double (its literal 0.0 fixes the type)
    for (float lb : {0.f, -3.f})
        for (int i = -200; i <= 200; i++)
            one<float>("f", lb, lb + 2.5f, lb + 0.0625f * i, "w"), one<float>("f", lb, lb + 2.5f, -1e-30f * i + lb, "w");
    vp::done();
    vp::finish();
    return 0;
}
