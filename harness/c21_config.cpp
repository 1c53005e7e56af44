// C21: every subset of the optional parameters, every value of a lattice for every parameter, every order of boundaries, and every single omission or wrong
// array size, through the real configuration reader.
#include <cmath>
#include <cstring>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include "Sylinder/SylinderConfig.hpp"
#include "Util/Logger.hpp"
#include "vp.hpp"
using std::string;
using std::vector;

struct Par {
    const char *name;
    int kind; // 0 double 1 int 2 bool 3 unsigned, 10+ arrays of three
    bool required;
    std::function<void *(SylinderConfig &)> at;
    vector<string> values; // of one component
};
#define AT(x) [](SylinderConfig &c) -> void * { return (void *)&c.x; }

static const vector<string> D = {"1", "0", "-1", "0.25", "1e-300", "0.1", "3.0000000000000004", "1.7976931348623157e+308", "-0.001", "1e5", "4.9406564584124654e-324", "123456789.123456789"};
static const vector<string> I = {"1", "0", "-1", "7", "100000", "2147483647", "-2147483648"};
static const vector<string> U = {"1", "0", "7", "2147483647", "4294967295"};
static const vector<string> B = {"true", "false"};

static vector<Par> pars() {
    return {
        {"rngSeed", 3, true, AT(rngSeed), U},
        {"simBoxLow", 10, true, AT(simBoxLow), D},
        {"simBoxHigh", 10, true, AT(simBoxHigh), D},
        {"simBoxPBC", 12, true, AT(simBoxPBC), B},
        {"viscosity", 0, true, AT(viscosity), D},
        {"KBT", 0, true, AT(KBT), D},
        {"sylinderNumber", 1, true, AT(sylinderNumber), I},
        {"sylinderLength", 0, true, AT(sylinderLength), D},
        {"sylinderDiameter", 0, true, AT(sylinderDiameter), D},
        {"dt", 0, true, AT(dt), D},
        {"timeTotal", 0, true, AT(timeTotal), D},
        {"timeSnap", 0, true, AT(timeSnap), D},
        {"conResTol", 0, true, AT(conResTol), D},
        {"conMaxIte", 1, true, AT(conMaxIte), I},
        {"conSolverChoice", 1, true, AT(conSolverChoice), I},
        {"logLevel", 1, false, AT(logLevel), I},
        {"timerLevel", 1, false, AT(timerLevel), I},
        {"monolayer", 2, false, AT(monolayer), B},
        {"initBoxLow", 10, false, AT(initBoxLow), D},
        {"initBoxHigh", 10, false, AT(initBoxHigh), D},
        {"initOrient", 10, false, AT(initOrient), D},
        {"initCircularX", 2, false, AT(initCircularX), B},
        {"initPreSteps", 1, false, AT(initPreSteps), I},
        {"linkKappa", 0, false, AT(linkKappa), D},
        {"linkGap", 0, false, AT(linkGap), D},
        {"sylinderFixed", 2, false, AT(sylinderFixed), B},
        {"sylinderLengthSigma", 0, false, AT(sylinderLengthSigma), D},
        {"sylinderDiameterColRatio", 0, false, AT(sylinderDiameterColRatio), D},
        {"sylinderLengthColRatio", 0, false, AT(sylinderLengthColRatio), D},
        {"sylinderColBuf", 0, false, AT(sylinderColBuf), D},
    };
}

static double num(const string &s) { return s == "true" ? 1 : s == "false" ? 0 : strtod(s.c_str(), nullptr); }
typedef vector<double> Val;
static Val get(SylinderConfig &c, const Par &p) {
    void *a = p.at(c);
    switch (p.kind) {
    case 0: return {*(double *)a};
    case 1: return {(double)*(int *)a};
    case 2: return {(double)*(bool *)a};
    case 3: return {(double)*(unsigned *)a};
    case 10: return {((double *)a)[0], ((double *)a)[1], ((double *)a)[2]};
    default: return {(double)((bool *)a)[0], (double)((bool *)a)[1], (double)((bool *)a)[2]};
    }
}
static const vector<Par> P = pars();
static const int N = P.size();

// the given texts (empty: absent)
typedef vector<vector<string>> Text;
static int idx(const string &n) {
    for (int i = 0; i < N; i++)
        if (n == P[i].name)
            return i;
    abort();
}
static Val expected(const Text &t, int i) {
    if (!t[i].empty()) {
        Val v;
        for (auto &s : t[i])
            v.push_back(num(s));
        return v;
    }
    string n = P[i].name;
    if (n == "logLevel")
        return {(double)spdlog::level::info};
    if (n == "timerLevel")
        return expected(t, idx("logLevel"));
    if (n == "initBoxLow")
        return expected(t, idx("simBoxLow"));
    if (n == "initBoxHigh")
        return expected(t, idx("simBoxHigh"));
    if (n == "initOrient")
        return {2, 2, 2};
    if (n == "initPreSteps" || n == "linkKappa")
        return {100};
    if (n == "linkGap")
        return {0.01};
    if (n == "sylinderLengthSigma")
        return {-1};
    if (n == "sylinderDiameterColRatio" || n == "sylinderLengthColRatio")
        return {1};
    if (n == "sylinderColBuf")
        return {0.3};
    return {0}; // flags
}
static string yaml(const Text &t, const string &boundaries, int style, int order) {
    string s = style == 1 ? "# settings\n---\n" : "";
    vector<int> o;
    for (int i = 0; i < N; i++)
        o.push_back(order < 0 ? N - 1 - i : (i * 7 + order) % N);
    if (order == 0)
        for (int i = 0; i < N; i++)
            o[i] = i;
    for (int k = 0; k < N; k++) {
        int i = o[k];
        if (k == N / 2 && style == 1)
            s += boundaries;
        if (t[i].empty())
            continue;
        s += string(P[i].name) + ":";
        if (P[i].kind < 10)
            s += " " + t[i][0];
        else if (style == 0) {
            s += " [";
            for (size_t q = 0; q < t[i].size(); q++)
                s += (q ? ", " : "") + t[i][q];
            s += "]";
        } else
            for (auto &q : t[i])
                s += "\n  - " + q;
        s += "\n";
    }
    if (style != 1)
        s += boundaries;
    return s;
}
static void put(const string &s) {
    FILE *f = fopen("cfg.yaml", "w");
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
static void verify(const Text &t) {
    // a recognisable pattern below the object: a field that is not set keeps it
    alignas(SylinderConfig) static char raw[sizeof(SylinderConfig)];
    memset(raw, 0x5a, sizeof raw);
    SylinderConfig *c = nullptr;
    try {
        c = new (raw) SylinderConfig("cfg.yaml");
    } catch (std::exception &e) {
        VP_CHECK(false, "a valid file is rejected: %s", e.what());
        return;
    }
    for (int i = 0; i < N; i++) {
        Val v = get(*c, P[i]), w = expected(t, i);
        for (size_t k = 0; k < w.size(); k++)
            VP_CHECK(v[k] == w[k], "%s[%zu] is %.17g, %s %.17g", P[i].name, k, v[k], t[i].empty() ? "the default is" : "the file says", w[k]);
    }
    c->~SylinderConfig();
}

static Text base(int shift = 0) {
    Text t(N);
    for (int i = 0; i < N; i++)
        for (int k = 0; k < (P[i].kind >= 10 ? 3 : 1); k++) {
            // distinct values for all parameters and components
            string v;
            if (P[i].kind % 10 == 0)
                v = vp::fmt("%.17g", (i * 3 + k + 1) * 0.37 + shift);
            else if (P[i].kind % 10 == 2)
                v = (i + k + shift) % 2 ? "true" : "false";
            else
                v = vp::fmt("%d", i * 3 + k + 11 + shift);
            t[i].push_back(v);
        }
    return t;
}

// 0: the reader returned, 1: stopped with an error
static int inChild() {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        try {
            SylinderConfig c("cfg.yaml");
        } catch (std::exception &) {
            _exit(3);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st))
        return WEXITSTATUS(st) != 0;
    return WTERMSIG(st) == SIGABRT ? 1 : 2;
}

struct Bd {
    const char *type;
    double c[3], n[3], r;
    bool inside;
};
static const Bd bds[] = {{"wall", {1, 2, 3}, {0, 0, 2}, 0, true},     {"wall", {0, -1, 0}, {1, -1, 0.5}, 0, true},       {"tube", {1, 0, 0}, {0, 3, 0}, 2.5, true},
                         {"tube", {0, 0, 7}, {1, 1, 0}, 0.5, false},  {"sphere", {0.5, 0.25, -1}, {0, 0, 0}, 4, true}, {"sphere", {0, 0, 0}, {0, 0, 0}, 1.5, false}};
static string btext(const Bd &b, const char *skip = "", bool flip = false, int dims = 3) {
    string a = vp::fmt("type: %s", b.type);
    auto add = [&](const char *n, const string &v) {
        if (strcmp(n, skip))
            a = flip ? string(n) + ": " + v + ", " + a : a + ", " + n + ": " + v;
    };
    auto arr = [&](const double *x) {
        string s = "[";
        for (int k = 0; k < dims; k++)
            s += vp::fmt("%s%.17g", k ? ", " : "", x[k % 3]);
        return s + "]";
    };
    add("center", arr(b.c));
    if (b.type[0] == 'w')
        add("norm", arr(b.n));
    else {
        if (b.type[0] == 't')
            add("axis", arr(b.n));
        add("radius", vp::fmt("%.17g", b.r));
        add("inside", b.inside ? "true" : "false");
    }
    return "  - {" + a + "}\n";
}
static std::shared_ptr<Boundary> direct(const Bd &b) {
    Bd x = b;
    if (b.type[0] == 'w')
        return std::make_shared<Wall>(x.c, x.n);
    if (b.type[0] == 't')
        return std::make_shared<Tube>(x.c, x.n, x.r, x.inside);
    return std::make_shared<SphereShell>(x.c, x.r, x.inside);
}

int main(int argc, char **argv) {
    vp::init(argc, argv, 0);
    spdlog::set_level(spdlog::level::off);
    // every subset of the optional parameters
    vector<int> opt, req;
    for (int i = 0; i < N; i++)
        (P[i].required ? req : opt).push_back(i);
    const int nOpt = opt.size();
    for (int m = 0; m < (1 << nOpt); m++) {
        if (!vp::begin(vp::fmt("subset %x", m)))
            continue;
        Text t = base(m % 2);
        for (int k = 0; k < nOpt; k++)
            if (!(m >> k & 1))
                t[opt[k]].clear();
        put(yaml(t, "", m % 3 == 0, m % 5 == 0 ? -1 : m % 7));
        verify(t);
        vp::count("subsets");
        if (m)
            vp::nontrivial();
        vp::outcome(vp::fmt("%x", m));
    }
    // every value of every parameter and component, in every position of the file
    for (int i = 0; i < N; i++)
        for (size_t v = 0; v < P[i].values.size(); v++)
            for (int k = 0; k < (P[i].kind >= 10 ? 3 : 1); k++)
                for (int order = -1; order < (vp::S().thorough ? N : 4); order++)
                    for (int rest = 0; rest < 2; rest++) {
                        if (!vp::begin(vp::fmt("value %s[%d]=%s order=%d others=%d", P[i].name, k, P[i].values[v].c_str(), order, rest)))
                            continue;
                        Text t = base();
                        t[i][k] = P[i].values[v];
                        if (rest)
                            for (int o : opt)
                                if (o != i)
                                    t[o].clear();
                        put(yaml(t, "", (v + k) % 2, order));
                        verify(t);
                        vp::count("values");
                        vp::nontrivial();
                    }
    // one required parameter missing; a wrong number of components; a value of the wrong type
    for (int i = 0; i < N; i++) {
        if (P[i].required && vp::begin(vp::fmt("missing %s", P[i].name))) {
            Text t = base();
            t[i].clear();
            put(yaml(t, "", 0, 0));
            VP_CHECK(inChild() == 1, "the run goes on without %s", P[i].name);
            vp::count("missing");
            vp::nontrivial();
            for (int j = i + 1; j < N; j++)
                if (P[j].required) { // two missing
                    t[j].clear();
                    put(yaml(t, "", 0, 0));
                    VP_CHECK(inChild() == 1, "the run goes on without %s and %s", P[i].name, P[j].name);
                    t[j] = base()[j];
                }
        }
        if (P[i].kind >= 10)
            for (int n = 0; n < 6; n++)
                if (n != 3)
                    for (int style = 0; style < 2; style++) {
                        if (!vp::begin(vp::fmt("size %s %d style=%d", P[i].name, n, style)))
                            continue;
                        Text t = base();
                        string s;
                        t[i].resize(n, "1");
                        if (P[i].kind == 12)
                            for (auto &q : t[i])
                                q = "true";
                        if (n == 0) {
                            t[i].clear();
                            s = yaml(t, "", style, 0) + P[i].name + (style ? ": []\n" : ": 3\n");
                        } else
                            s = yaml(t, "", style, 0);
                        put(s);
                        VP_CHECK(inChild() == 1, "the run goes on with %d components of %s", n, P[i].name);
                        vp::count("sizes");
                        vp::nontrivial();
                    }
        for (const char *bad : {"abc", "1.5.2", "[1]"}) {
            if (!vp::begin(vp::fmt("type %s=%s", P[i].name, bad)))
                continue;
            Text t = base();
            t[i][0] = bad;
            if (P[i].kind >= 10)
                t[i][2] = bad;
            put(yaml(t, "", 0, 0));
            VP_CHECK(inChild() == 1, "the run goes on with %s = %s", P[i].name, bad);
            vp::count("types");
            vp::nontrivial();
        }
    }
    // boundaries: every sequence up to three
    for (int n = 0; n <= 3; n++) {
        int tot = n == 0 ? 1 : n == 1 ? 6 : n == 2 ? 36 : 216;
        for (int q = 0; q < tot; q++)
            for (int flip = 0; flip < 2; flip++) {
                if (!vp::begin(vp::fmt("boundaries n=%d %d flip=%d", n, q, flip)))
                    continue;
                Text t = base();
                if (q % 2)
                    for (int o : opt)
                        t[o].clear();
                vector<int> w;
                string s = "boundaries:\n";
                for (int k = 0, r = q; k < n; k++, r /= 6) {
                    w.push_back(r % 6);
                    s += btext(bds[r % 6], "", flip);
                }
                if (n == 0)
                    s = q % 2 ? "" : "boundaries: []\n";
                put(yaml(t, s, flip, 0));
                verify(t);
                SylinderConfig c("cfg.yaml");
                VP_CHECK((int)c.boundaryPtr.size() == n, "%zu boundaries, the file lists %d", c.boundaryPtr.size(), n);
                if ((int)c.boundaryPtr.size() != n)
                    continue;
                for (int k = 0; k < n; k++) {
                    auto &got = *c.boundaryPtr[k];
                    auto ref = direct(bds[w[k]]);
                    VP_CHECK(typeid(got) == typeid(*ref), "boundary %d is of another type than %s", k, bds[w[k]].type);
                    for (int x = -1; x <= 1; x++)
                        for (int y = -1; y <= 1; y++)
                            for (int z = -1; z <= 1; z++) {
                                double Q[3] = {2.1 * x + 0.03, 3.7 * y - 0.4, 5.3 * z + 0.2}, p1[3], d1[3], p2[3], d2[3];
                                got.project(Q, p1, d1);
                                ref->project(Q, p2, d2);
                                for (int e = 0; e < 3; e++)
                                    VP_CHECK(std::fabs(p1[e] - p2[e]) < 1e-12 && std::fabs(d1[e] - d2[e]) < 1e-12, "boundary %d (%s) of the file differs from the one with these settings", k,
                                             bds[w[k]].type);
                            }
                }
                vp::count("boundary_lists");
                vp::nontrivial();
                vp::outcome(vp::fmt("b%d %d", n, q));
            }
    }
    for (int b = 0; b < 6; b++) {
        for (const char *skip : {"center", "norm", "axis", "radius", "inside"}) {
            if (!strstr(btext(bds[b]).c_str(), skip) || !vp::begin(vp::fmt("boundary %d without %s", b, skip)))
                continue;
            put(yaml(base(), "boundaries:\n" + btext(bds[b], skip), 0, 0));
            VP_CHECK(inChild() == 1, "the run goes on with a %s without %s", bds[b].type, skip);
            vp::count("boundary_missing");
            vp::nontrivial();
        }
        for (int dims : {1, 2, 4}) {
            if (!vp::begin(vp::fmt("boundary %d with %d components", b, dims)))
                continue;
            put(yaml(base(), "boundaries:\n" + btext(bds[b], "", false, dims), 0, 0));
            VP_CHECK(inChild() == 1, "the run goes on with %d components of a vector of a %s", dims, bds[b].type);
            vp::count("boundary_missing");
            vp::nontrivial();
        }
    }
    vp::done();
    vp::finish();
}
