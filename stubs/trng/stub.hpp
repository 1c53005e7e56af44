// Stand-in for the part of the TRNG library that SimToolbox uses (TRNG is not installed in this sandbox).
// Engines have TRNG semantics: one sequence per seed, split(s, n) keeps every s-th element starting with the n-th,
// jump(n) skips n elements.  Each element is a counter based hash of (seed, position), every draw is reported to a hook, and
// a harness may script the values, so that nothing about random numbers is left uncontrolled.
#ifndef VP_TRNG_STUB
#define VP_TRNG_STUB
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <limits>
namespace trng {
namespace stub {
typedef void (*Hook)(const void *engine, unsigned long seed, unsigned long long pos);
typedef bool (*Script)(unsigned long seed, unsigned long long pos, double &u);
inline Hook &hook() {
    static Hook h = nullptr;
    return h;
}
inline Script &script() {
    static Script s = nullptr;
    return s;
}
inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
// inverse of the standard normal distribution function (Acklam + one Halley step)
inline double invn(double p) {
    static const double a[6] = {-3.969683028665376e+01, 2.209460984245205e+02, -2.759285104469687e+02,
                                1.383577518672690e+02, -3.066479806614716e+01, 2.506628277459239e+00};
    static const double b[5] = {-5.447609879822406e+01, 1.615858368580409e+02, -1.556989798598866e+02,
                                6.680131188771972e+01, -1.328068155288572e+01};
    static const double c[6] = {-7.784894002430293e-03, -3.223964580411365e-01, -2.400758277161838e+00,
                                -2.549732539343734e+00, 4.374664141464968e+00, 2.938163982698783e+00};
    static const double d[4] = {7.784695709041462e-03, 3.224671290700398e-01, 2.445134137142996e+00,
                                3.754408661907416e+00};
    double x;
    if (p < 0.02425) {
        double q = std::sqrt(-2 * std::log(p));
        x = (((((c[0] * q + c[1]) * q + c[2]) * q + c[3]) * q + c[4]) * q + c[5]) /
            ((((d[0] * q + d[1]) * q + d[2]) * q + d[3]) * q + 1);
    } else if (p <= 1 - 0.02425) {
        double q = p - 0.5, r = q * q;
        x = (((((a[0] * r + a[1]) * r + a[2]) * r + a[3]) * r + a[4]) * r + a[5]) * q /
            (((((b[0] * r + b[1]) * r + b[2]) * r + b[3]) * r + b[4]) * r + 1);
    } else {
        double q = std::sqrt(-2 * std::log(1 - p));
        x = -(((((c[0] * q + c[1]) * q + c[2]) * q + c[3]) * q + c[4]) * q + c[5]) /
            ((((d[0] * q + d[1]) * q + d[2]) * q + d[3]) * q + 1);
    }
    double e = 0.5 * std::erfc(-x / std::sqrt(2.0)) - p;
    double u = e * std::sqrt(2 * M_PI) * std::exp(x * x / 2);
    return x - u / (1 + x * u / 2);
}
class engine {
    unsigned long seed_ = 0;
    unsigned long long pos_ = 0, stride_ = 1; // pos_ = index of the next element

  public:
    typedef unsigned long result_type;
    engine() {}
    explicit engine(unsigned long s) : seed_(s) {}
    void seed() { *this = engine(); }
    void seed(unsigned long s) {
        seed_ = s;
        pos_ = 0;
        stride_ = 1;
    }
    void split(unsigned int s, unsigned int n) {
        if (s < 1 || n >= s)
            throw std::invalid_argument("trng: invalid argument for split");
        if (s > 1) {
            pos_ += stride_ * n;
            stride_ *= s;
        }
    }
    void jump(unsigned long long n) { pos_ += stride_ * n; }
    void jump2(unsigned int s) { pos_ += stride_ << s; }
    void discard(unsigned long long n) { jump(n); }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return (1ul << 31) - 1; }
    double unit() { // in (0,1)
        double u = 0;
        unsigned long long p = pos_;
        pos_ += stride_;
        if (hook())
            hook()(this, seed_, p);
        if (script() && script()(seed_, p, u))
            return u;
        uint64_t z = mix(mix(seed_ + 0x1234567) ^ mix(p));
        return ((z >> 12) + 0.5) * (1.0 / 4503599627370496.0);
    }
    result_type operator()() { return (result_type)(unit() * 2147483648.0); }
    bool operator==(const engine &o) const { return seed_ == o.seed_ && pos_ == o.pos_ && stride_ == o.stride_; }
    bool operator!=(const engine &o) const { return !(*this == o); }
};
} // namespace stub
template <typename F = double>
class uniform01_dist {
  public:
    typedef F result_type;
    uniform01_dist() {}
    void reset() {}
    template <typename R>
    F operator()(R &r) {
        return r.unit();
    }
};
template <typename F = double>
class normal_dist {
    F mu_, sigma_;

  public:
    typedef F result_type;
    normal_dist(F mu, F sigma) : mu_(mu), sigma_(sigma) {}
    void reset() {}
    F mu() const { return mu_; }
    F sigma() const { return sigma_; }
    template <typename R>
    F operator()(R &r) {
        return mu_ + sigma_ * stub::invn(r.unit());
    }
};
template <typename F = double>
class lognormal_dist {
    F mu_, sigma_;

  public:
    typedef F result_type;
    lognormal_dist(F mu, F sigma) : mu_(mu), sigma_(sigma) {}
    void reset() {}
    F mu() const { return mu_; }
    F sigma() const { return sigma_; }
    template <typename R>
    F operator()(R &r) {
        return std::exp(mu_ + sigma_ * stub::invn(r.unit()));
    }
};
} // namespace trng
#endif
