// C32: every Gauss-Legendre rule of 1..128 nodes against nodes/weights computed in long double and against exact integrals of
// all polynomials (monomials and Legendre polynomials) up to degree 2N-1.
#include <vector>
#include "vp.hpp"
#include "Util/Gauss_Legendre_Nodes_and_Weights.hpp"
typedef long double LD;
static void ref(int n, std::vector<LD> &x, std::vector<LD> &w) {
    x.resize(n);
    w.resize(n);
    for (int i = 0; i < n; i++) {
        LD t = -cosl(3.14159265358979323846264338327950288L * (i + 0.75L) / (n + 0.5L)), d = 1;
        for (int it = 0; it < 100; it++) {
            LD p0 = 1, p1 = t;
            for (int k = 2; k <= n; k++) {
                LD p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k;
                p0 = p1;
                p1 = p2;
            }
            d = n * (t * p1 - p0) / (t * t - 1);
            LD s = p1 / d;
            t -= s;
            if (fabsl(s) < 1e-19L)
                break;
        }
        if (n % 2 && i == n / 2)
            t = 0;
        LD p0 = 1, p1 = t;
        for (int k = 2; k <= n; k++) {
            LD p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k;
            p0 = p1;
            p1 = p2;
        }
        d = n * (t * p1 - p0) / (t * t - 1);
        x[i] = t;
        w[i] = 2 / ((1 - t * t) * d * d);
    }
}
template <class R>
static void one(const char *ty, int n, int before, double eps) {
    if (!vp::begin(vp::fmt("%s N%d after%d", ty, n, before)))
        return;
    std::vector<R> x, w;
    if (before)
        Gauss_Legendre_Nodes_and_Weights<R>(before, x, w);
    else {
        x.assign(5, 7);
        w.assign(200, -3);
    }
    Gauss_Legendre_Nodes_and_Weights<R>(n, x, w);
    VP_CHECK((int)x.size() == n && (int)w.size() == n, "%zu nodes, %zu weights", x.size(), w.size());
    if ((int)x.size() != n || (int)w.size() != n)
        return;
    std::vector<LD> X, W;
    ref(n, X, W);
    uint64_t h = n;
    for (int i = 0; i < n; i++) {
        VP_CHECK(fabsl(x[i] - X[i]) <= 2 * eps, "node %d: %.18Lg, expected %.18Lg", i, (LD)x[i], X[i]);
        VP_CHECK(fabsl(w[i] - W[i]) <= 2 * eps, "weight %d: %.18Lg, expected %.18Lg", i, (LD)w[i], W[i]);
        VP_CHECK(w[i] > 0 && x[i] > -1 && x[i] < 1 && (i == 0 || x[i] > x[i - 1]), "node %d out of order or range, or weight not positive", i);
        VP_CHECK(fabsl((LD)x[i] + x[n - 1 - i]) <= eps && fabsl((LD)w[i] - w[n - 1 - i]) <= eps, "not symmetric at %d", i);
        double v = (double)x[i];
        h = vp::fnv(&v, 8, h);
    }
    std::vector<LD> p(n, 1), l0(n, 1), l1(n);
    for (int i = 0; i < n; i++)
        l1[i] = x[i];
    for (int k = 0; k <= 2 * n - 1; k++) {
        LD s = 0, q = 0;
        for (int i = 0; i < n; i++) {
            s += w[i] * p[i];
            q += w[i] * (k == 0 ? l0[i] : l1[i]);
            p[i] *= x[i];
        }
        LD e = k % 2 ? 0 : 2.0L / (k + 1);
        // rounding of a node moves x^k by k*eps at most
        VP_CHECK(fabsl(s - e) <= eps * (16 + 2 * k), "x^%d integrates to %.18Lg", k, s);
        VP_CHECK(fabsl(q - (k == 0 ? 2 : 0)) <= eps * (16 + 2 * n), "P_%d integrates to %.18Lg", k, q);
        vp::S().states++;
        if (k >= 1)
            for (int i = 0; i < n; i++) {
                LD l2 = ((2 * k + 1) * (LD)x[i] * l1[i] - k * l0[i]) / (k + 1);
                l0[i] = l1[i];
                l1[i] = l2;
            }
    }
    vp::nontrivial();
    vp::outcome(h);
}
int main(int argc, char **argv) {
    vp::init(argc, argv);
    for (int n = 1; n <= 128; n++) {
        for (int b : {0, 1, 128, n})
            one<double>("double", n, b, 2.3e-16);
        if (n < 128)
            one<double>("double", n, n + 1, 2.3e-16);
        one<float>("float", n, 0, 1.2e-7);
        one<long double>("longdouble", n, 0, 2.3e-16);
    }
    vp::finish();
}
