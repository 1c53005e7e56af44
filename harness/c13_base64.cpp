// C13: Base64 encoder/decoder against RFC 4648 and the VTK inline-binary layout.
#include "vp.hpp"
#include "Util/Base64.hpp"
#include "Util/IOHelper.hpp"
#include <fstream>
#include <sstream>
static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref(const unsigned char *p, size_t n) {
    std::string o;
    for (size_t i = 0; i < n; i += 3) {
        unsigned v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
        o += T[v >> 18];
        o += T[(v >> 12) & 63];
        o += i + 1 < n ? T[(v >> 6) & 63] : '=';
        o += i + 2 < n ? T[v & 63] : '=';
    }
    return o;
}
static std::string buf;
static std::vector<unsigned char> dec;
static void roundtrip(const unsigned char *p, size_t n) {
    buf.clear();
    size_t w = B64Converter::kwsysBase64_Encode(p, n, buf);
    const std::string r = ref(p, n);
    if (buf != r || w != r.size())
        vp::fail("encode of %zu bytes: %s, expected %s (returned %zu)", n, buf.substr(0, 60).c_str(), r.substr(0, 60).c_str(), w);
    dec.assign(n + 8, 0xA5);
    size_t g = B64Converter::kwsysBase64_Decode((const unsigned char *)r.c_str(), n, dec.data(), 0);
    if (g != n || (n && memcmp(dec.data(), p, n)))
        vp::fail("decode by length of %s gives %zu bytes of %zu", r.substr(0, 60).c_str(), g, n);
    if (!r.empty()) {
        dec.assign(n + 8, 0xA5);
        g = B64Converter::kwsysBase64_Decode((const unsigned char *)r.c_str(), 0, dec.data(), r.size());
        if (g != n || memcmp(dec.data(), p, n))
            vp::fail("decode by input length of %s gives %zu bytes of %zu", r.substr(0, 60).c_str(), g, n);
    }
}
template <class X>
static void vec(const char *ty, const std::vector<X> &v, const std::string &prefix, const std::string &key) {
    if (!vp::begin(vp::fmt("vec/%s/%s/p%zu", ty, key.c_str(), prefix.size())))
        return;
    std::string out = prefix;
    B64Converter::getBase64FromVector(v, out);
    const uint32_t nb = v.size() * sizeof(X);
    const std::string e = prefix + ref((const unsigned char *)&nb, 4) + ref((const unsigned char *)v.data(), nb);
    VP_CHECK(out == e, "encoded array differs from the VTK layout: got %s expected %s", out.substr(0, 80).c_str(), e.substr(0, 80).c_str());
    VP_CHECK(out.find('\n') == std::string::npos, "newline in encoded data");
    vp::nontrivial();
    vp::outcome(vp::fnv(out));
}
template <class X>
static void arr(const char *ty, const std::vector<X> &v, int comp, const std::string &key) {
    if (!vp::begin(vp::fmt("xml/%s/%s/c%d", ty, key.c_str(), comp)))
        return;
    std::string fn = "arr.tmp";
    {
        std::ofstream f(fn);
        std::vector<X> w = v;
        IOHelper::writeDataArrayBase64(w, "field_" + key, comp, f);
    }
    std::ifstream f(fn);
    std::stringstream ss;
    ss << f.rdbuf();
    const std::string s = ss.str();
    const uint32_t nb = v.size() * sizeof(X);
    auto attr = [&](const std::string &a, const std::string &val) {
        VP_CHECK(s.find(a + "=\"" + val + "\"") != std::string::npos, "attribute %s=%s missing in %s", a.c_str(), val.c_str(), s.substr(0, 120).c_str());
    };
    attr("Name", "field_" + key);
    attr("type", ty);
    attr("NumberOfComponents", std::to_string(comp));
    attr("format", "binary");
    size_t b = s.find('>'), e = s.rfind("</DataArray>");
    VP_CHECK(s.compare(0, 10, "<DataArray") == 0 && b != std::string::npos && e != std::string::npos && e > b, "malformed element %s", s.substr(0, 80).c_str());
    if (b == std::string::npos || e == std::string::npos || e < b)
        return;
    std::string body = s.substr(b + 1, e - b - 1);
    size_t l = body.find_first_not_of(" \n\t"), r = body.find_last_not_of(" \n\t");
    body = l == std::string::npos ? "" : body.substr(l, r - l + 1);
    VP_CHECK(body == ref((const unsigned char *)&nb, 4) + ref((const unsigned char *)v.data(), nb), "content is not the base64 of the data");
    vp::nontrivial();
    vp::outcome(vp::fnv(s));
}
template <class X>
static void types(const char *ty, const char *vtk, std::vector<X> special) {
    for (int n = 0; n <= (vp::S().thorough ? 200 : 70); n++)
        for (size_t s = 0; s < special.size(); s++) {
            std::vector<X> v(n);
            for (int i = 0; i < n; i++)
                v[i] = special[(i * (s + 1) + s) % special.size()];
            for (auto p : {"", "x", "prefix="})
                vec(ty, v, p, vp::fmt("n%d/s%zu", n, s));
            if (vtk && n <= 24)
                for (int c : {1, 3})
                    arr<X>(vtk, v, c, vp::fmt("n%d/s%zu", n, s));
        }
}
int main(int argc, char **argv) {
    vp::init(argc, argv);
    unsigned char p[4];
    for (int n = 0; n <= 2; n++)
        for (long c = 0; c < (1l << (8 * n)); c += 256) { // all inputs of at most 2 bytes
            if (!vp::begin(vp::fmt("bytes%d/%ld", n, c)))
                continue;
            for (long d = c; d < c + 256 && d < (1l << (8 * n)); d++) {
                p[0] = d;
                p[1] = d >> 8;
                roundtrip(p, n);
                vp::count("inputs");
            }
            vp::outcome(vp::fnv(buf));
            vp::nontrivial();
        }
    for (long c = 0; c < (1l << 16); c++) { // all inputs of 3 bytes
        if (!vp::begin(vp::fmt("bytes3/%ld", c)))
            continue;
        for (int d = 0; d < 256; d += (vp::S().thorough ? 1 : 3)) {
            p[0] = c;
            p[1] = c >> 8;
            p[2] = d;
            roundtrip(p, 3);
            vp::count("inputs");
        }
        vp::outcome(vp::fnv(buf));
        vp::nontrivial();
    }
    // longer inputs: every length to 70 and every position of every byte value
    for (int n = 4; n <= 70; n++)
        for (int v = 0; v < 256; v++) {
            if (!vp::begin(vp::fmt("long%d/%d", n, v)))
                continue;
            std::vector<unsigned char> q(n);
            for (int pos = 0; pos < n; pos += 1 + n / 12) {
                for (int i = 0; i < n; i++)
                    q[i] = (i * 37 + v * 3) & 255;
                q[pos] = v;
                roundtrip(q.data(), n);
                vp::count("inputs");
            }
            vp::outcome(vp::fnv(buf));
            vp::nontrivial();
        }
    // mark_end and append
    for (int n = 0; n <= 9; n++) {
        if (!vp::begin(vp::fmt("mark/%d", n)))
            continue;
        unsigned char q[9] = {1, 2, 3, 250, 251, 252, 0, 255, 127};
        std::string o = "abc";
        size_t w = B64Converter::kwsysBase64_Encode(q, n, o, true);
        std::string e = ref(q, n) + (n % 3 == 0 ? "====" : "");
        VP_CHECK(o == "abc" + e && w == e.size(), "mark_end: %s", o.c_str());
        std::vector<unsigned char> d(64, 0xA5);
        size_t g = B64Converter::kwsysBase64_Decode((const unsigned char *)e.c_str(), 0, d.data(), e.size());
        VP_CHECK(g == (size_t)n && !memcmp(d.data(), q, n), "decode of a marked stream gives %zu of %d", g, n);
        vp::nontrivial();
    }
    // every invalid character stops the decoder
    for (int c = 0; c < 256; c++)
        for (int pos = 0; pos < 4; pos++) {
            if (!vp::begin(vp::fmt("invalid/%d/%d", c, pos)))
                continue;
            unsigned char s[9] = "QUJDREVG";
            s[4 + pos] = c;
            bool valid = c && (strchr(T, c) != nullptr || c == '=');
            unsigned char d[16] = {0};
            size_t g = B64Converter::kwsysBase64_Decode(s, 0, d, 8);
            if (!valid)
                VP_CHECK(g == 3 && !memcmp(d, "ABC", 3), "invalid char %d decoded: %zu bytes", c, g);
            vp::nontrivial();
        }
    types<double>("double", "Float64", {0.0, -0.0, 1.5, -1e300, 5e-324, INFINITY, -INFINITY, NAN, 3.141592653589793});
    types<float>("float", "Float32", {0.f, -0.f, 1.5f, -1e38f, 1e-45f, INFINITY, NAN, 3.14159f});
    types<int32_t>("int32", "Int32", {0, -1, 1, INT32_MIN, INT32_MAX, 0x12345678});
    types<uint8_t>("uint8", "UInt8", {0, 255, 1, 128, 61});
    types<int64_t>("int64", nullptr, {0, -1, INT64_MIN, INT64_MAX});
    unlink("arr.tmp");
    vp::done();
    vp::finish();
    return 0;
}
