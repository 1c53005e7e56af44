#include "omprt.hpp"

#include <algorithm>
#include <array>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;

// ------------------------------------------------------------------------------------------ real functions
extern "C" {
void __real_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
int __real_omp_get_thread_num();
int __real_omp_get_num_threads();
int __real_omp_get_max_threads();
int __real_omp_in_parallel();
void __real_GOMP_barrier();
void __real_GOMP_critical_start();
void __real_GOMP_critical_end();
void __real_GOMP_critical_name_start(void **);
void __real_GOMP_critical_name_end(void **);
void __real_GOMP_atomic_start();
void __real_GOMP_atomic_end();
bool __real_GOMP_single_start();
void __real_GOMP_loop_end();
void __real_GOMP_loop_end_nowait();
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
}

namespace omprt {

std::vector<Region> regions;
std::vector<Decision> decisions;
std::vector<Race> races;
uint64_t nAccess, nSwitch, nSync, nBarrier, nOverflow;
bool diverged;

static const int MAXT = 32;
static Policy pol;
static bool active = false; // recording on: regions are run by this runtime

// ------------------------------------------------------------------------------------------ symbols of this executable
struct Sym {
    uintptr_t a, e;
    std::string n;
};
static std::vector<Sym> syms;
static uintptr_t base;

static void loadSyms() {
    int fd = open("/proc/self/exe", O_RDONLY);
    struct stat st;
    fstat(fd, &st);
    char *m = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    auto *eh = (Elf64_Ehdr *)m;
    auto *sh = (Elf64_Shdr *)(m + eh->e_shoff);
    dl_iterate_phdr(
        [](struct dl_phdr_info *i, size_t, void *) {
            base = i->dlpi_addr;
            return 1;
        },
        nullptr);
    for (int i = 0; i < eh->e_shnum; i++)
        if (sh[i].sh_type == SHT_SYMTAB) {
            auto *s = (Elf64_Sym *)(m + sh[i].sh_offset);
            const char *str = m + sh[sh[i].sh_link].sh_offset;
            for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++)
                if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_value)
                    syms.push_back({base + s[k].st_value, base + s[k].st_value + s[k].st_size, str + s[k].st_name});
        }
    munmap(m, st.st_size);
    std::sort(syms.begin(), syms.end(), [](const Sym &a, const Sym &b) { return a.a < b.a; });
}
static const Sym *find(void *p) {
    uintptr_t x = (uintptr_t)p;
    auto it = std::upper_bound(syms.begin(), syms.end(), x, [](uintptr_t v, const Sym &s) { return v < s.a; });
    if (it == syms.begin())
        return nullptr;
    --it;
    return x < it->e || x == it->a ? &*it : nullptr;
}
static std::string demangle(const std::string &n) {
    std::string b = n, suf;
    size_t k = n.find("._omp_fn");
    if (k != std::string::npos)
        b = n.substr(0, k), suf = n.substr(k);
    int st;
    char *d = abi::__cxa_demangle(b.c_str(), nullptr, nullptr, &st);
    std::string r = (st == 0 && d ? std::string(d) : b) + suf;
    __real_free(d);
    return r;
}
std::string where(void *pc) {
    const Sym *s = find(pc);
    char b[64];
    if (!s) {
        snprintf(b, sizeof b, "%p", pc);
        return b;
    }
    snprintf(b, sizeof b, "+0x%lx", (unsigned long)((uintptr_t)pc - s->a));
    std::string n = demangle(s->n);
    if (n.size() > 160)
        n = n.substr(0, 80) + "…" + n.substr(n.size() - 70);
    return n + b;
}
// bodies of the numerical libraries (templates instantiated in the objects of the code under test) belong to the real runtime
static bool foreign(void *fn) {
    static std::map<void *, bool> memo;
    auto it = memo.find(fn);
    if (it != memo.end())
        return it->second;
    const Sym *s = find(fn);
    bool f = false;
    if (s) {
        std::string n = s->n;
        size_t k = n.find("._omp_fn");
        if (k != std::string::npos)
            n = n.substr(0, k);
        // the outermost scope decides
        size_t p = n.rfind("_ZN", 0) == 0 ? 3 : (n.rfind("_Z", 0) == 0 ? 2 : 0);
        while (p < n.size() && (n[p] == 'K' || n[p] == 'L' || n[p] == 'N'))
            p++;
        for (const char *lib : {"6Kokkos", "6Tpetra", "7Teuchos", "5Belos", "4Zoltan", "5Eigen"})
            if (n.compare(p, strlen(lib), lib) == 0)
                f = true;
    }
    return memo[fn] = f;
}

// ------------------------------------------------------------------------------------------ virtual threads
struct Ws { // work shared by the team: a loop with chunks on demand, sections or a single
    bool init = false;
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned long unext = 0, uend = 0, uincr = 0, uchunk = 1;
    bool up = true, taken = false;
    int left = 0;
    long sections = 0;
};
struct Vt {
    int state = 0; // 0 not started, 1 ready, 2 at barrier, 3 done, 4 waiting for a lock
    void *waitLock = nullptr;
    int wsIndex = 0;
    Ws *ws = nullptr;
    unsigned locks = 0;
    uint32_t seen[MAXT] = {}; // releases of the other threads that happened before; own entry: own releases
    int guard = 0; // inside the initialisation of a function static
};
struct Team {
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    void (*init)(Team &) = nullptr;
    int n = 0, cur = -1, done = 0, atBarrier = 0;
    Vt vt[MAXT];
    std::vector<Ws *> ws;
    bool target = false;
    size_t step = 0;
    long idx = 0;
    std::vector<Decision> dec;
    bool sync = false;
};
static Team *team = nullptr;
static thread_local int myVt = -1;   // of this real thread while it runs a share
static thread_local int nested = 0;
static thread_local bool inRt = false; // inside this runtime: what it does itself is not recorded
struct In {
    bool sv = inRt;
    In() { inRt = true; }
    ~In() { inRt = sv; }
};
static std::map<void *, int> lockIds;
static std::map<void *, int> lockOwner;
static std::map<void *, std::array<uint32_t, MAXT>> lockClock; // what the next owner of the lock learns

static std::mutex mx;
static std::condition_variable cv[MAXT];
static int baton = 0; // virtual thread that may run
static bool stopAll = false;


// ------------------------------------------------------------------------------------------ shadow memory
struct Rec {
    uint8_t mask, flags; // flags: 1 write, 2 atomic
    uint16_t locks;
    uint32_t vts;   // threads that made this access ...
    uint32_t epoch; // ... each after having released this many locks
    void *pc;
};
static const int RMAX = 12;
struct Slot {
    uintptr_t key;
    uint32_t gen;
    int n;
    Rec r[RMAX];
};
static Slot *table;
static size_t tsize = 1u << 20, tused;
static uint32_t gen = 1;
static std::set<std::string> raceSeen;

static void clearShadow() {
    gen++;
    tused = 0;
}
static Slot *slot(uintptr_t key) {
    size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20;
    for (size_t i = 0;; i++) {
        Slot &s = table[(h + i) & (tsize - 1)];
        if (s.gen != gen) {
            if (2 * tused > tsize) { // grow
                size_t os = tsize;
                Slot *o = table;
                tsize *= 4;
                table = (Slot *)mmap(nullptr, tsize * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                for (size_t k = 0; k < os; k++)
                    if (o[k].gen == gen) {
                        size_t hh = (o[k].key * 0x9E3779B97F4A7C15ull) >> 20;
                        size_t j = 0;
                        while (table[(hh + j) & (tsize - 1)].gen == gen)
                            j++;
                        table[(hh + j) & (tsize - 1)] = o[k];
                    }
                munmap(o, os * sizeof(Slot));
                return slot(key);
            }
            s.gen = gen;
            s.key = key;
            s.n = 0;
            tused++;
            return &s;
        }
        if (s.key == key)
            return &s;
    }
}
static void report(uintptr_t a, const Rec &o, const Rec &n, int vt) {
    std::string w = where(o.pc), v = where(n.pc);
    std::string k = w + v;
    if (!raceSeen.insert(k).second || races.size() > 50)
        return;
    const Sym *s = find((void *)team->fn);
    char b[200];
    int ov = 0;
    while (ov < MAXT && (!(o.vts & (1u << ov)) || ov == vt))
        ov++;
    snprintf(b, sizeof b, "thread %d %s%s after thread %d %s%s, same memory: ", vt, n.flags & 2 ? "atomically " : "", n.flags & 1 ? "writes" : "reads", ov,
             o.flags & 2 ? "atomically " : "", o.flags & 1 ? "wrote" : "read");
    races.push_back({s ? demangle(s->n) : "?", std::string(b) + v + " / " + w});
}
static void touch8(uintptr_t key, uint8_t mask, uint8_t flags, void *pc) {
    Vt &t = team->vt[myVt];
    Slot *s = slot(key);
    const uint32_t me = 1u << myVt;
    const uint16_t lk = (uint16_t)t.locks;
    const uint32_t ep = t.seen[myVt];
    Rec nr{mask, flags, lk, me, ep, pc};
    Rec *same = nullptr, *empty = nullptr;
    for (int i = 0; i < s->n; i++) {
        Rec &r = s->r[i];
        if ((r.vts & ~me) && (r.mask & mask) && ((r.flags | flags) & 1) && !((r.flags & flags) & 2) && !(r.locks & lk)) {
            bool ordered = true; // every one of them released a lock afterwards that this thread acquired, directly or through others
            for (int v = 0; v < MAXT && ordered; v++)
                if (v != myVt && (r.vts >> v & 1) && t.seen[v] <= r.epoch)
                    ordered = false;
            if (!ordered)
                report(key << 3, r, nr, myVt);
        }
        if (r.mask == mask && r.flags == flags && r.locks == lk) {
            if (r.epoch == ep)
                same = &r;
            else
                r.vts &= ~me; // the new access stands for the old one
        }
        if (!r.vts)
            empty = &r;
    }
    if (same) {
        same->vts |= me;
        same->pc = pc;
    } else if (empty)
        *empty = nr;
    else if (s->n < RMAX)
        s->r[s->n++] = nr;
    else
        nOverflow++;
}
static void touch(void *p, size_t n, uint8_t flags, void *pc) {
    In in;
    if (team->vt[myVt].guard)
        return;
    nAccess++;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uintptr_t k = a >> 3;
        unsigned lo = a & 7, hi = (unsigned)std::min<uintptr_t>(8, e - (k << 3));
        touch8(k, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), flags, pc);
        a = (k + 1) << 3;
    }
}

// ------------------------------------------------------------------------------------------ scheduler
static void waitBaton(int me) {
    std::unique_lock<std::mutex> l(mx);
    cv[me].wait(l, [&] { return baton == me; });
}
static void give(int to) {
    {
        std::unique_lock<std::mutex> l(mx);
        baton = to;
    }
    cv[to == MAXT - 1 ? 0 : to].notify_one();
}
static int rankOf(int v) {
    if (pol.order.empty())
        return v;
    for (size_t i = 0; i < pol.order.size(); i++)
        if (pol.order[i] == v)
            return (int)i;
    return v; // threads beyond the permutation keep their place behind it
}
static bool ready(Team &t, int v) {
    Vt &x = t.vt[v];
    return x.state <= 1 || (x.state == 4 && (!lockOwner.count(x.waitLock) || lockOwner[x.waitLock] < 0));
}
// choose the next thread; cur = running thread or -1
static int choose(Team &t, int cur) {
    std::vector<int> opt;
    bool runnable = cur >= 0 && ready(t, cur);
    if (runnable)
        opt.push_back(cur);
    std::vector<int> o;
    for (int v = 0; v < t.n; v++)
        if (v != cur && ready(t, v))
            o.push_back(v);
    std::sort(o.begin(), o.end(), [](int a, int b) { return rankOf(a) < rankOf(b); });
    if (!t.target && pol.alternate && runnable && !o.empty()) { // round robin
        int best = o[0];
        for (int v : o)
            if (rankOf(v) > rankOf(cur)) {
                best = v;
                break;
            }
        return best;
    }
    opt.insert(opt.end(), o.begin(), o.end());
    if (opt.empty()) {
        fprintf(stderr, "omprt: deadlock in a parallel region\n");
        abort();
    }
    int c = 0;
    if (t.target) {
        if (t.step < pol.prefix.size()) {
            c = pol.prefix[t.step];
            if (c >= (int)opt.size()) {
                diverged = true;
                c = 0;
            }
        }
        t.dec.push_back({(int)opt.size(), c, runnable});
    }
    t.step++;
    return opt[c];
}
static void checkBarrier(Team &t) {
    if (t.atBarrier && t.atBarrier + t.done == t.n) {
        nBarrier++;
        t.atBarrier = 0;
        for (int v = 0; v < t.n; v++)
            if (t.vt[v].state == 2)
                t.vt[v].state = 1;
        clearShadow();
    }
}
static void switchTo(int to) {
    int me = myVt;
    if (to == me)
        return;
    nSwitch++;
    give(to);
    waitBaton(me);
    team->vt[me].state = 1;
}
static void syncPoint() { // the running thread may be preempted here
    In in;
    Team &t = *team;
    t.sync = true;
    nSync++;
    if (t.vt[myVt].guard)
        return;
    t.vt[myVt].state = 1;
    switchTo(choose(t, myVt));
}
static void barrier() {
    In in;
    Team &t = *team;
    t.vt[myVt].state = 2;
    t.atBarrier++;
    checkBarrier(t);
    if (t.vt[myVt].state == 1) { // the last to arrive: who goes on is a choice
        int to = choose(t, -1);
        if (to != myVt)
            switchTo(to);
    } else
        switchTo(choose(t, -1));
    t.vt[myVt].state = 1;
}
static void acquire(void *l) {
    In in;
    Team &t = *team;
    syncPoint();
    while (lockOwner.count(l) && lockOwner[l] >= 0) {
        if (lockOwner[l] == myVt) {
            fprintf(stderr, "omprt: thread waits for a lock it holds\n");
            abort();
        }
        t.vt[myVt].state = 4;
        t.vt[myVt].waitLock = l;
        switchTo(choose(t, -1));
    }
    lockOwner[l] = myVt;
    if (!lockIds.count(l)) {
        int id = (int)(lockIds.size() % 16);
        lockIds[l] = id;
    }
    t.vt[myVt].locks |= 1u << lockIds[l];
    auto it = lockClock.find(l);
    if (it != lockClock.end())
        for (int v = 0; v < MAXT; v++)
            t.vt[myVt].seen[v] = std::max(t.vt[myVt].seen[v], it->second[v]);
}
static void release(void *l) {
    In in;
    lockOwner[l] = -1;
    Vt &me = team->vt[myVt];
    me.seen[myVt]++;
    auto &c = lockClock[l];
    for (int v = 0; v < MAXT; v++)
        c[v] = std::max(c[v], me.seen[v]);
    team->vt[myVt].locks &= ~(1u << lockIds[l]);
}

static void share(int v) {
    myVt = v;
    team->vt[v].state = 1;
    bool sv = inRt;
    inRt = false;
    team->fn(team->data);
    inRt = sv;
    team->vt[v].state = 3;
    team->done++;
    checkBarrier(*team);
    myVt = -1;
}
static pthread_t pool[MAXT];
static int npool = 1;
static std::vector<void *> quarantine;

static void *worker(void *a) {
    In in;
    int v = (int)(long)a;
    for (;;) {
        waitBaton(v);
        if (stopAll)
            return nullptr;
        share(v);
        // everything done: back to the master, else somebody else
        if (team->done == team->n)
            give(MAXT - 1);
        else
            give(choose(*team, -1));
    }
}
static void run(void (*fn)(void *), void *data, int n, void (*init)(Team &)) {
    In in;
    Team t;
    lockClock.clear();
    t.fn = fn;
    t.data = data;
    t.n = n;
    t.idx = (long)regions.size();
    t.target = t.idx == pol.target;
    const Sym *s = find((void *)fn);
    regions.push_back({s ? s->n : "?", n, 0, false});
    if (n > MAXT - 1) {
        fprintf(stderr, "omprt: team of %d threads\n", n);
        abort();
    }
    while (npool < n) {
        pthread_create(&pool[npool], nullptr, worker, (void *)(long)npool);
        npool++;
    }
    if (init)
        init(t);
    clearShadow();
    team = &t;
    lockOwner.clear();
    int first = choose(t, -1);
    // the master is virtual thread 0
    bool ran0 = false;
    if (first == 0)
        baton = 0;
    else
        give(first);
    for (;;) {
        {
            std::unique_lock<std::mutex> l(mx);
            cv[0].wait(l, [&] { return baton == 0 || baton == MAXT - 1; });
            if (baton == MAXT - 1)
                break;
        }
        ran0 = true;
        share(0);
        if (t.done == t.n)
            break;
        give(choose(t, -1));
    }
    (void)ran0;
    team = nullptr;
    baton = -1;
    for (auto *w : t.ws)
        delete w;
    regions.back().decisions = (int)t.step;
    regions[t.idx].sync = t.sync;
    if (t.target)
        decisions = t.dec;
    for (void *p : quarantine)
        __real_free(p);
    quarantine.clear();
}

static int teamSize(unsigned num) {
    int n = num ? (int)num : pol.threads;
    return std::max(1, n);
}
static void parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags, void (*init)(Team &)) {
    if (team) { // nested regions have one thread
        nested++;
        if (init) {
            fprintf(stderr, "omprt: nested work-sharing region\n");
            abort();
        }
        fn(data);
        nested--;
        return;
    }
    run(fn, data, teamSize(num), init);
}

// ------------------------------------------------------------------------------------------ work sharing
static Ws *nextWs() {
    In in;
    Vt &v = team->vt[myVt];
    while ((int)team->ws.size() <= v.wsIndex)
        team->ws.push_back(new Ws());
    v.ws = team->ws[v.wsIndex++];
    return v.ws;
}
static bool loopNext(long *is, long *ie) {
    syncPoint();
    Ws &w = *team->vt[myVt].ws;
    bool more = w.incr > 0 ? w.next < w.end : w.next > w.end;
    if (!more)
        return false;
    *is = w.next;
    long e = w.next + w.chunk * w.incr;
    if (w.incr > 0 ? e > w.end : e < w.end)
        e = w.end;
    *ie = e;
    w.next = e;
    return true;
}
static bool loopStart(long start, long end, long incr, long chunk, long *is, long *ie) {
    Ws &w = *nextWs();
    if (!w.init) {
        w.init = true;
        w.next = start;
        w.end = end;
        w.incr = incr;
        w.chunk = std::max(1l, chunk);
    }
    return is ? loopNext(is, ie) : true;
}
static bool uloopNext(unsigned long *is, unsigned long *ie) {
    syncPoint();
    Ws &w = *team->vt[myVt].ws;
    bool more = w.up ? w.unext < w.uend : w.unext > w.uend;
    if (!more)
        return false;
    *is = w.unext;
    unsigned long left = w.up ? w.uend - w.unext : w.unext - w.uend, st = w.up ? w.uincr : -w.uincr, c = w.uchunk * st;
    *ie = c >= left ? w.uend : (w.up ? w.unext + c : w.unext - c);
    w.unext = *ie;
    return true;
}
static bool uloopStart(bool up, unsigned long start, unsigned long end, unsigned long incr, unsigned long chunk, unsigned long *is,
                       unsigned long *ie) {
    Ws &w = *nextWs();
    if (!w.init) {
        w.init = true;
        w.up = up;
        w.unext = start;
        w.uend = end;
        w.uincr = incr;
        w.uchunk = std::max(1ul, chunk);
    }
    return uloopNext(is, ie);
}
static unsigned sectionsNext() {
    syncPoint();
    Ws &w = *team->vt[myVt].ws;
    return w.next < w.sections ? (unsigned)++w.next : 0;
}
static struct {
    long a, b, c, d;
} combined;

// ------------------------------------------------------------------------------------------ control
void setup() {
    __libc_single_threaded = 0;
    loadSyms();
    table = (Slot *)mmap(nullptr, tsize * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    baton = -1;
}
void begin(const Policy &p) {
    pol = p;
    regions.clear();
    decisions.clear();
    races.clear();
    raceSeen.clear();
    diverged = false;
    active = true;
}
void end() { active = false; }

} // namespace omprt

using namespace omprt;

extern "C" {
// ------------------------------------------------------------------------------------------ OpenMP entry points
void __wrap_GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags) {
    if (!active || foreign((void *)fn)) {
        // a region of a library inside a share: not recorded
        int sv = myVt;
        myVt = -1;
        __real_GOMP_parallel(fn, data, active && team ? 1 : num, flags);
        myVt = sv;
        return;
    }
    parallel(fn, data, num, flags, nullptr);
}
#define MOCK (team && myVt >= 0 && !inRt)
int __wrap_omp_get_thread_num() { return MOCK ? (nested ? 0 : myVt) : __real_omp_get_thread_num(); }
int __wrap_omp_get_num_threads() { return MOCK ? (nested ? 1 : team->n) : __real_omp_get_num_threads(); }
int __wrap_omp_get_max_threads() { return active ? pol.threads : __real_omp_get_max_threads(); }
int __wrap_omp_in_parallel() { return MOCK ? team->n > 1 : __real_omp_in_parallel(); }
void __wrap_GOMP_barrier() {
    if (!MOCK)
        return __real_GOMP_barrier();
    if (!nested)
        barrier();
}
static char critLock, atomLock;
void __wrap_GOMP_critical_start() {
    if (!MOCK)
        return __real_GOMP_critical_start();
    acquire(&critLock);
}
void __wrap_GOMP_critical_end() {
    if (!MOCK)
        return __real_GOMP_critical_end();
    release(&critLock);
}
void __wrap_GOMP_critical_name_start(void **p) {
    if (!MOCK)
        return __real_GOMP_critical_name_start(p);
    acquire(p);
}
void __wrap_GOMP_critical_name_end(void **p) {
    if (!MOCK)
        return __real_GOMP_critical_name_end(p);
    release(p);
}
void __wrap_GOMP_atomic_start() {
    if (!MOCK)
        return __real_GOMP_atomic_start();
    acquire(&atomLock);
}
void __wrap_GOMP_atomic_end() {
    if (!MOCK)
        return __real_GOMP_atomic_end();
    release(&atomLock);
}
bool __wrap_GOMP_single_start() {
    if (!MOCK)
        return __real_GOMP_single_start();
    if (nested)
        return true;
    syncPoint();
    Ws &w = *nextWs();
    bool mine = !w.taken;
    w.taken = true;
    return mine;
}
void __wrap_GOMP_loop_end() {
    if (!MOCK)
        return __real_GOMP_loop_end();
    barrier();
}
void __wrap_GOMP_loop_end_nowait() {
    if (!MOCK)
        return __real_GOMP_loop_end_nowait();
}
// loops whose chunks are handed out on demand (every kind; a static schedule reaches the runtime only when ordered)
#define LOOP(kind)                                                                                                                            \
    bool __real_GOMP_loop_##kind##_start(long, long, long, long, long *, long *);                                                             \
    bool __real_GOMP_loop_##kind##_next(long *, long *);                                                                                      \
    bool __wrap_GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) {                                                \
        if (!MOCK)                                                                                                                            \
            return __real_GOMP_loop_##kind##_start(s, e, i, c, is, ie);                                                                       \
        return loopStart(s, e, i, c, is, ie);                                                                                                 \
    }                                                                                                                                         \
    bool __wrap_GOMP_loop_##kind##_next(long *is, long *ie) {                                                                                 \
        if (!MOCK)                                                                                                                            \
            return __real_GOMP_loop_##kind##_next(is, ie);                                                                                    \
        return loopNext(is, ie);                                                                                                              \
    }                                                                                                                                         \
    bool __real_GOMP_loop_ull_##kind##_start(bool, unsigned long, unsigned long, unsigned long, unsigned long, unsigned long *,               \
                                             unsigned long *);                                                                                \
    bool __real_GOMP_loop_ull_##kind##_next(unsigned long *, unsigned long *);                                                                \
    bool __wrap_GOMP_loop_ull_##kind##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *is,  \
                                             unsigned long *ie) {                                                                             \
        if (!MOCK)                                                                                                                            \
            return __real_GOMP_loop_ull_##kind##_start(up, s, e, i, c, is, ie);                                                               \
        return uloopStart(up, s, e, i, c, is, ie);                                                                                            \
    }                                                                                                                                         \
    bool __wrap_GOMP_loop_ull_##kind##_next(unsigned long *is, unsigned long *ie) {                                                           \
        if (!MOCK)                                                                                                                            \
            return __real_GOMP_loop_ull_##kind##_next(is, ie);                                                                                \
        return uloopNext(is, ie);                                                                                                             \
    }                                                                                                                                         \
    void __real_GOMP_parallel_loop_##kind(void (*)(void *), void *, unsigned, long, long, long, long, unsigned);                              \
    void __wrap_GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned num, long s, long e, long i, long c, unsigned flags) {     \
        if (!active || foreign((void *)fn))                                                                                                   \
            return __real_GOMP_parallel_loop_##kind(fn, data, num, s, e, i, c, flags);                                                        \
        combined = {s, e, i, c};                                                                                                              \
        parallel(fn, data, num, flags, [](Team &t) {                                                                                          \
            Ws *w = new Ws();                                                                                                                 \
            w->init = true;                                                                                                                   \
            w->next = combined.a;                                                                                                             \
            w->end = combined.b;                                                                                                              \
            w->incr = combined.c;                                                                                                             \
            w->chunk = std::max(1l, combined.d);                                                                                              \
            t.ws.push_back(w);                                                                                                                \
            for (int v = 0; v < t.n; v++)                                                                                                     \
                t.vt[v].ws = w, t.vt[v].wsIndex = 1;                                                                                          \
        });                                                                                                                                   \
    }
LOOP(dynamic)
LOOP(nonmonotonic_dynamic)
LOOP(guided)
LOOP(nonmonotonic_guided)

void __real_GOMP_parallel_sections(void (*)(void *), void *, unsigned, unsigned, unsigned);
void __wrap_GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned num, unsigned count, unsigned flags) {
    if (!active || foreign((void *)fn))
        return __real_GOMP_parallel_sections(fn, data, num, count, flags);
    combined = {(long)count, 0, 0, 0};
    parallel(fn, data, num, flags, [](Team &t) {
        Ws *w = new Ws();
        w->init = true;
        w->sections = combined.a;
        t.ws.push_back(w);
        for (int v = 0; v < t.n; v++)
            t.vt[v].ws = w, t.vt[v].wsIndex = 1;
    });
}
unsigned __real_GOMP_sections_start(unsigned);
unsigned __wrap_GOMP_sections_start(unsigned count) {
    if (!MOCK)
        return __real_GOMP_sections_start(count);
    Ws &w = *nextWs();
    if (!w.init) {
        w.init = true;
        w.sections = count;
    }
    return sectionsNext();
}
unsigned __real_GOMP_sections_next();
unsigned __wrap_GOMP_sections_next() { return MOCK ? sectionsNext() : __real_GOMP_sections_next(); }
void __real_GOMP_sections_end();
void __wrap_GOMP_sections_end() {
    if (!MOCK)
        return __real_GOMP_sections_end();
    barrier();
}
void __real_GOMP_sections_end_nowait();
void __wrap_GOMP_sections_end_nowait() {
    if (!MOCK)
        return __real_GOMP_sections_end_nowait();
}
// tasks are run where they are created
void __real_GOMP_task(void (*)(void *), void *, void (*)(void *, void *), long, long, bool, unsigned, void **, int, void *);
void __wrap_GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool cond, unsigned flags, void **dep, int pri,
                      void *det) {
    if (!MOCK)
        return __real_GOMP_task(fn, data, cpy, sz, al, cond, flags, dep, pri, det);
    if (cpy) {
        void *m = aligned_alloc(std::max(16l, al), ((size_t)sz + al + 63) / 64 * 64);
        cpy(m, data);
        fn(m);
        In in;
        quarantine.push_back(m);
    } else
        fn(data);
}
void __real_GOMP_taskwait();
void __wrap_GOMP_taskwait() {
    if (!MOCK)
        return __real_GOMP_taskwait();
}
// ------------------------------------------------------------------------------------------ locks
void __real_omp_set_lock(void *);
void __real_omp_unset_lock(void *);
void __wrap_omp_set_lock(void *l) {
    if (MOCK)
        acquire(l);
    else
        __real_omp_set_lock(l);
}
void __wrap_omp_unset_lock(void *l) {
    if (MOCK)
        release(l);
    else
        __real_omp_unset_lock(l);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (MOCK) {
        acquire(m);
        return 0;
    }
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (MOCK) {
        release(m);
        return 0;
    }
    return __real_pthread_mutex_unlock(m);
}
int __wrap___cxa_guard_acquire(uint64_t *g) {
    int r = __real___cxa_guard_acquire(g);
    if (MOCK && r)
        team->vt[myVt].guard++;
    return r;
}
void __wrap___cxa_guard_release(uint64_t *g) {
    __real___cxa_guard_release(g);
    if (MOCK)
        team->vt[myVt].guard--;
}
void __wrap___cxa_guard_abort(uint64_t *g) {
    __real___cxa_guard_abort(g);
    if (MOCK)
        team->vt[myVt].guard--;
}
// ------------------------------------------------------------------------------------------ memory
void __wrap_free(void *p) {
    if (MOCK && p) {
        touch(p, std::min<size_t>(malloc_usable_size(p), 4096), 1, __builtin_return_address(0));
        In in;
        quarantine.push_back(p);
        return;
    }
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
    if (MOCK && p && n) {
        void *q = malloc(n);
        size_t o = malloc_usable_size(p);
        touch(p, std::min(o, n), 0, __builtin_return_address(0));
        __real_memcpy(q, p, std::min(o, n));
        __wrap_free(p);
        return q;
    }
    return __real_realloc(p, n);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (MOCK && n) {
        touch((void *)s, n, 0, __builtin_return_address(0));
        touch(d, n, 1, __builtin_return_address(0));
    }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (MOCK && n) {
        touch((void *)s, n, 0, __builtin_return_address(0));
        touch(d, n, 1, __builtin_return_address(0));
    }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    if (MOCK && n)
        touch(d, n, 1, __builtin_return_address(0));
    return __real_memset(d, c, n);
}
// ------------------------------------------------------------------------------------------ recorded accesses
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define ACC(n)                                                                                                                                \
    void __tsan_read##n(void *p) {                                                                                                            \
        if (MOCK)                                                                                                                             \
            touch(p, n, 0, PC);                                                                                                               \
    }                                                                                                                                         \
    void __tsan_write##n(void *p) {                                                                                                           \
        if (MOCK)                                                                                                                             \
            touch(p, n, 1, PC);                                                                                                               \
    }                                                                                                                                         \
    void __tsan_unaligned_read##n(void *p) {                                                                                                  \
        if (MOCK)                                                                                                                             \
            touch(p, n, 0, PC);                                                                                                               \
    }                                                                                                                                         \
    void __tsan_unaligned_write##n(void *p) {                                                                                                 \
        if (MOCK)                                                                                                                             \
            touch(p, n, 1, PC);                                                                                                               \
    }                                                                                                                                         \
    void __tsan_volatile_read##n(void *p) {                                                                                                   \
        if (MOCK)                                                                                                                             \
            touch(p, n, 0, PC);                                                                                                               \
    }                                                                                                                                         \
    void __tsan_volatile_write##n(void *p) {                                                                                                  \
        if (MOCK)                                                                                                                             \
            touch(p, n, 1, PC);                                                                                                               \
    }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void *p, unsigned long n) {
    if (MOCK)
        touch(p, n, 0, PC);
}
void __tsan_write_range(void *p, unsigned long n) {
    if (MOCK)
        touch(p, n, 1, PC);
}
void __tsan_vptr_update(void *p, void *nv) {
    if (MOCK && *(void **)p != nv)
        touch(p, 8, 1, PC);
}
void __tsan_vptr_read(void *p) {
    if (MOCK)
        touch(p, 8, 0, PC);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T)                                                                                                                              \
    T __tsan_atomic##b##_load(const volatile T *a, int) {                                                                                     \
        if (MOCK)                                                                                                                             \
            touch((void *)a, sizeof(T), 2, PC);                                                                                               \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                          \
    }                                                                                                                                         \
    void __tsan_atomic##b##_store(volatile T *a, T v, int) {                                                                                  \
        if (MOCK) {                                                                                                                           \
            syncPoint();                                                                                                                      \
            touch((void *)a, sizeof(T), 3, PC);                                                                                               \
        }                                                                                                                                     \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                             \
    }                                                                                                                                         \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int) {                                                                                  \
        if (MOCK) {                                                                                                                           \
            syncPoint();                                                                                                                      \
            touch((void *)a, sizeof(T), 3, PC);                                                                                               \
        }                                                                                                                                     \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                                   \
    }                                                                                                                                         \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) {                                                     \
        if (MOCK) {                                                                                                                           \
            syncPoint();                                                                                                                      \
            touch((void *)a, sizeof(T), 3, PC);                                                                                               \
        }                                                                                                                                     \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                                                         \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int x, int y) {                                                   \
        if (MOCK) {                                                                                                                           \
            syncPoint();                                                                                                                      \
            touch((void *)a, sizeof(T), 3, PC);                                                                                               \
        }                                                                                                                                     \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                                                         \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int, int) {                                                            \
        if (MOCK) {                                                                                                                           \
            syncPoint();                                                                                                                      \
            touch((void *)a, sizeof(T), 3, PC);                                                                                               \
        }                                                                                                                                     \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                     \
        return e;                                                                                                                             \
    }                                                                                                                                         \
    AF(b, T, add) AF(b, T, sub) AF(b, T, and) AF(b, T, or) AF(b, T, xor) AF(b, T, nand)
#define AF(b, T, op)                                                                                                                          \
    T __tsan_atomic##b##_fetch_##op(volatile T *a, T v, int) {                                                                                \
        if (MOCK) {                                                                                                                           \
            syncPoint();                                                                                                                      \
            touch((void *)a, sizeof(T), 3, PC);                                                                                               \
        }                                                                                                                                     \
        return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                                                                                   \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
}

// memory released during a region is kept until its end, so that no address is used for two objects in one region
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, std::size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, std::size_t) noexcept { __wrap_free(p); }
