// C11: sortDataWithTag: ascending tags, equal tags keep their order, every record travels with its tag.
#include "vp.hpp"
#include "Util/SortUtil.hpp"
#include <array>
struct Rec {
    int orig;
    double payload[3];
};
struct KTag { // user type with operator< only
    int a, b;
    bool operator<(const KTag &o) const { return a < o.a; } // b is not part of the order
};
template <class T>
T mk(int v, int i);
template <>
int mk<int>(int v, int) { return v; }
template <>
double mk<double>(int v, int) { return v == 0 ? -0.5 : v * 0.25; }
template <>
std::string mk<std::string>(int v, int) { return std::string(v + 1, 'a' + v); }
template <>
KTag mk<KTag>(int v, int i) { return {v, i}; }
template <>
unsigned char mk<unsigned char>(int v, int) { return 250 - v * 50; }

template <class T>
static void run(const char *ty, const std::string &key, const std::vector<int> &v) {
    if (!vp::begin(std::string(ty) + "/" + key))
        return;
    const int n = v.size();
    std::vector<T> tags;
    std::vector<Rec> data;
    for (int i = 0; i < n; i++) {
        tags.push_back(mk<T>(v[i], i));
        data.push_back(Rec{i, {1.0 * i, -2.0 * i, v[i] * 100.0 + i}});
    }
    const std::vector<T> in = tags;
    sortDataWithTag(tags, data);
    VP_CHECK((int)tags.size() == n && (int)data.size() == n, "size changed: %zu %zu", tags.size(), data.size());
    if ((int)tags.size() != n || (int)data.size() != n)
        return;
    std::vector<char> seen(n, 0);
    bool moved = false;
    for (int i = 0; i < n; i++) {
        const int o = data[i].orig;
        VP_CHECK(o >= 0 && o < n && !seen[o], "record %d lost or duplicated", o);
        if (o < 0 || o >= n)
            return;
        seen[o] = 1;
        moved |= o != i;
        VP_CHECK(data[i].payload[0] == o && data[i].payload[1] == -2.0 * o && data[i].payload[2] == v[o] * 100.0 + o,
                 "record %d damaged", o);
        VP_CHECK(!(tags[i] < in[o]) && !(in[o] < tags[i]), "position %d: tag does not belong to its record", i);
        if (i) {
            VP_CHECK(!(tags[i] < tags[i - 1]), "tags not ascending at %d", i);
            if (!(tags[i - 1] < tags[i]))
                VP_CHECK(data[i - 1].orig < o, "equal tags reordered at %d", i);
        }
    }
    if (moved)
        vp::nontrivial();
    vp::outcome(vp::fnv(data.data(), 0) + [&] {
        uint64_t h = 7;
        for (auto &d : data)
            h = h * 1000003 + d.orig;
        return h;
    }());
    vp::S().states++;
}
static void all(const std::string &key, const std::vector<int> &v) {
    run<int>("int", key, v);
    run<double>("dbl", key, v);
    if (v.size() <= 40) {
        run<KTag>("ktag", key, v);
        run<std::string>("str", key, v);
        run<unsigned char>("u8", key, v);
    }
}
int main(int argc, char **argv) {
    vp::init(argc, argv);
    const bool th = vp::S().thorough;
    for (int n = 0; n <= (th ? 8 : 6); n++) { // every tag sequence over 4 values
        long tot = 1;
        for (int i = 0; i < n; i++)
            tot *= 4;
        for (long c = 0; c < tot; c++) {
            std::vector<int> v(n);
            std::string k = "q";
            long r = c;
            for (int i = 0; i < n; i++) {
                v[i] = r % 4;
                r /= 4;
                k += char('0' + v[i]);
            }
            all(k, v);
        }
    }
    for (int n : {17, 18, 23, 31, 32, 33, 40, 64, 65, 129, 257, 1000, 4099}) // longer: all arithmetic patterns
        for (int m : {1, 2, 3, 5})
            for (int k = 1; k < (th ? 40 : 12); k++)
                for (int c = 0; c < 3; c++) {
                    std::vector<int> v(n);
                    for (int i = 0; i < n; i++)
                        v[i] = ((i * k + c * i * i) / (1 + c)) % m;
                    all(vp::fmt("n%d/m%d/k%d/c%d", n, m, k, c), v);
                }
    for (int n : {20, 34}) // two marked positions among equal tags
        for (int a = 0; a < n; a++)
            for (int b = 0; b < n; b++)
                for (int s = 0; s < 2; s++) {
                    std::vector<int> v(n, 1);
                    v[a] = s ? 0 : 2;
                    v[b] = s ? 2 : 0;
                    all(vp::fmt("mark%d/%d/%d/%d", n, a, b, s), v);
                }
    vp::done();
    vp::finish();
    return 0;
}
