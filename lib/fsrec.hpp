// Recorder of every operation a process does on the files below one directory (system call level: a seccomp filter traps the
// calls, the handler performs and logs them), together with the MPI operations that order the ranks; and the model of the file
// system that rebuilds the directory after any prefix of the operations of every rank.
#ifndef VP_FSREC_HPP
#define VP_FSREC_HPP
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <cstring>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <map>
#include <mpi.h>
#include <string>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

extern "C" {
extern char vpsys_begin[], vpsys_end[];
long vpsys(long n, long a, long b, long c, long d, long e, long f);
}
__asm__(".text\n.globl vpsys\n.globl vpsys_begin\n.globl vpsys_end\nvpsys:\nvpsys_begin:\n mov %rdi,%rax\n mov %rsi,%rdi\n"
        " mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\nvpsys_end:\n");

namespace fsrec {
enum Kind { CREATE, TRUNC, WRITE, RENAME, UNLINK, MKDIR, SYNC, UNKNOWN };
enum SyncKind { ALL, TO_ROOT, FROM_ROOT, SEND, RECV };
struct Op { // trivially copyable: gathered over MPI; the bytes of a write lie in the arena
    int kind = 0, file = -1, rank = 0;
    long off = 0, len = 0, data = 0;
    double t = 0;
    int sync = 0;
    unsigned mask = 0; // ranks of the communicator (world numbering)
    int root = 0, tag = 0;
    char path[200] = {0}, path2[200] = {0};
};
inline std::vector<Op> &log() {
    static std::vector<Op> l;
    return l;
}
inline std::string &arena() {
    static std::string a;
    return a;
}
inline bool &on() {
    static bool b = false;
    return b;
}
struct Fd {
    bool used = false, append = false;
    char path[200];
};
inline Fd *fds() {
    static Fd f[4096];
    return f;
}
inline std::string &root() {
    static std::string r;
    return r;
}
inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
// path relative to the recorded directory, without . and ..; false if it lies elsewhere
inline bool norm(const char *p, char *out) {
    std::string s = p;
    if (!s.empty() && s[0] == '/') {
        if (s.compare(0, root().size(), root()) != 0 || s.size() <= root().size() || s[root().size()] != '/')
            return false;
        s = s.substr(root().size() + 1);
    }
    std::vector<std::string> v;
    size_t i = 0;
    while (i <= s.size()) {
        size_t j = s.find('/', i);
        if (j == std::string::npos)
            j = s.size();
        std::string c = s.substr(i, j - i);
        i = j + 1;
        if (c.empty() || c == ".")
            continue;
        if (c == "..") {
            if (v.empty())
                return false;
            v.pop_back();
        } else
            v.push_back(c);
    }
    std::string r;
    for (auto &c : v)
        r += (r.empty() ? "" : "/") + c;
    if (r.size() > 198)
        return false;
    strcpy(out, r.c_str());
    return true;
}
inline void add(int kind, const char *p, const char *p2 = nullptr, long off = 0, const void *d = nullptr, long n = 0) {
    Op o;
    o.kind = kind;
    o.t = now();
    strcpy(o.path, p);
    if (p2)
        strcpy(o.path2, p2);
    o.off = off;
    o.len = n;
    if (d) {
        o.data = (long)arena().size();
        arena().append((const char *)d, n);
    }
    log().push_back(o);
}
inline long handle(long n, long a, long b, long c, long d, long e, long f) {
    char p[256], p2[256];
    if (!on())
        return vpsys(n, a, b, c, d, e, f);
    switch (n) {
    case SYS_open:
    case SYS_creat:
    case SYS_openat: {
        const char *path = (const char *)(n == SYS_openat ? b : a);
        long fl = n == SYS_openat ? c : (n == SYS_open ? b : (O_CREAT | O_WRONLY | O_TRUNC));
        bool in = norm(path, p) && (fl & (O_WRONLY | O_RDWR));
        bool had = in && vpsys(SYS_access, (long)path, F_OK, 0, 0, 0, 0) == 0;
        long r = vpsys(n, a, b, c, d, e, f);
        if (r >= 0 && r < 4096) {
            fds()[r].used = in;
            if (in) {
                strcpy(fds()[r].path, p);
                fds()[r].append = (fl & O_APPEND) != 0;
                if (!had)
                    add(CREATE, p);
                else if (fl & O_TRUNC)
                    add(TRUNC, p);
            }
        }
        return r;
    }
    case SYS_close: {
        if (a >= 0 && a < 4096)
            fds()[a].used = false;
        return vpsys(n, a, b, c, d, e, f);
    }
    case SYS_write:
    case SYS_pwrite64:
    case SYS_writev: {
        if (a < 0 || a >= 4096 || !fds()[a].used)
            return vpsys(n, a, b, c, d, e, f);
        long off = n == SYS_pwrite64 ? d : (fds()[a].append ? vpsys(SYS_lseek, a, 0, SEEK_END, 0, 0, 0) : vpsys(SYS_lseek, a, 0, SEEK_CUR, 0, 0, 0));
        long r = vpsys(n, a, b, c, d, e, f);
        if (r > 0) {
            if (n == SYS_writev) {
                std::string s;
                const iovec *v = (const iovec *)b;
                for (long k = 0; k < c; k++)
                    s.append((const char *)v[k].iov_base, v[k].iov_len);
                add(WRITE, fds()[a].path, nullptr, off, s.data(), r);
            } else
                add(WRITE, fds()[a].path, nullptr, off, (const void *)b, r);
        }
        return r;
    }
    case SYS_ftruncate: {
        long r = vpsys(n, a, b, c, d, e, f);
        if (a >= 0 && a < 4096 && fds()[a].used && r == 0)
            add(b == 0 ? TRUNC : UNKNOWN, fds()[a].path);
        return r;
    }
    case SYS_rename:
    case SYS_renameat:
    case SYS_renameat2: {
        const char *x = (const char *)(n == SYS_rename ? a : b), *y = (const char *)(n == SYS_rename ? b : d);
        bool in = norm(x, p) && norm(y, p2);
        long r = vpsys(n, a, b, c, d, e, f);
        if (in && r == 0) {
            add(RENAME, p, p2);
            for (int k = 0; k < 4096; k++)
                if (fds()[k].used && !strcmp(fds()[k].path, p))
                    strcpy(fds()[k].path, p2);
        }
        return r;
    }
    case SYS_unlink:
    case SYS_unlinkat: {
        bool in = norm((const char *)(n == SYS_unlink ? a : b), p);
        long r = vpsys(n, a, b, c, d, e, f);
        if (in && r == 0)
            add(UNLINK, p);
        return r;
    }
    case SYS_mkdir:
    case SYS_mkdirat: {
        bool in = norm((const char *)(n == SYS_mkdir ? a : b), p);
        long r = vpsys(n, a, b, c, d, e, f);
        if (in && r == 0)
            add(MKDIR, p);
        return r;
    }
    case SYS_link:
    case SYS_linkat:
    case SYS_symlink:
    case SYS_symlinkat:
    case SYS_truncate:
    case SYS_copy_file_range:
    case SYS_sendfile:
    case SYS_pwritev:
    case SYS_dup2:
    case SYS_dup:
    case SYS_dup3: {
        long r = vpsys(n, a, b, c, d, e, f);
        bool mine = (n == SYS_dup || n == SYS_dup2 || n == SYS_dup3 || n == SYS_pwritev) ? (a >= 0 && a < 4096 && fds()[a].used)
                    : n == SYS_sendfile                                                ? (a >= 0 && a < 4096 && fds()[a].used)
                    : n == SYS_copy_file_range                                         ? (c >= 0 && c < 4096 && fds()[c].used)
                                                                                       : norm((const char *)(n == SYS_linkat || n == SYS_symlinkat ? b : a), p);
        if (mine)
            add(UNKNOWN, "?");
        return r;
    }
    }
    return vpsys(n, a, b, c, d, e, f);
}
inline void sigsys(int, siginfo_t *i, void *u) {
    greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    int en = errno;
    long r = handle(i->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
    errno = en;
    g[REG_RAX] = r;
}
// once per process
inline bool install() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = sigsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, nullptr);
    log().reserve(100000);
    arena().reserve(64 << 20);
    fds();
    char b[4096];
    root() = getcwd(b, sizeof b) ? b : "/nonexistent";
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0))
        return false;
    static const int calls[] = {SYS_open,   SYS_creat,    SYS_openat, SYS_close,  SYS_write,  SYS_pwrite64, SYS_writev,          SYS_ftruncate, SYS_rename,
                                SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat,  SYS_link,            SYS_linkat,    SYS_symlink,
                                SYS_symlinkat, SYS_truncate, SYS_copy_file_range, SYS_sendfile, SYS_pwritev, SYS_dup, SYS_dup2, SYS_dup3};
    const int n = sizeof calls / sizeof *calls;
    unsigned long b0 = (unsigned long)vpsys_begin, e0 = (unsigned long)vpsys_end;
    std::vector<sock_filter> f;
    auto st = [&](unsigned short c, unsigned k) { f.push_back(sock_filter{c, 0, 0, k}); };
    auto jp = [&](unsigned short c, unsigned k, int t, int e) { f.push_back(sock_filter{c, (unsigned char)t, (unsigned char)e, k}); };
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    for (int k = 0; k < n; k++)
        jp(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)calls[k], n - k, 0);
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
    jp(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(b0 >> 32), 0, 3);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
    jp(BPF_JMP | BPF_JGE | BPF_K, (unsigned)b0, 0, 1);
    jp(BPF_JMP | BPF_JGT | BPF_K, (unsigned)e0, 0, 1);
    st(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    sock_fprog p{(unsigned short)f.size(), f.data()};
    return syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_TSYNC, &p) == 0;
}
inline void begin() {
    log().clear();
    arena().clear();
    on() = true;
}
inline void end() { on() = false; }

// ---- MPI operations that order the ranks
inline void sync(int kind, MPI_Comm c, int root = 0, int peerTag = 0) {
    if (!on())
        return;
    on() = false;
    Op o;
    o.kind = SYNC;
    o.sync = kind;
    o.t = now();
    MPI_Group g, w;
    PMPI_Comm_group(c, &g);
    PMPI_Comm_group(MPI_COMM_WORLD, &w);
    int n;
    PMPI_Group_size(g, &n);
    for (int i = 0; i < n; i++) {
        int r;
        PMPI_Group_translate_ranks(g, 1, &i, w, &r);
        if (r >= 0)
            o.mask |= 1u << r;
        if (i == root)
            o.root = r;
    }
    o.tag = peerTag;
    PMPI_Group_free(&g);
    PMPI_Group_free(&w);
    log().push_back(o);
    on() = true;
}

// ---- the file system model
struct FS {
    std::map<std::string, int> name;
    std::map<int, std::string> data; // -1: directory
    int next = 1;
    bool unknown = false;
    void apply(const Op &o, const std::string &bytes, long n = -1) {
        switch (o.kind) {
        case CREATE:
            name[o.path] = next;
            data[next++] = "";
            break;
        case TRUNC:
            if (name.count(o.path))
                data[name[o.path]] = "";
            break;
        case WRITE: {
            auto it = name.find(o.path);
            if (it == name.end()) {
                unknown = true;
                break;
            }
            std::string &d = data[it->second];
            long m = n < 0 ? o.len : n;
            if ((long)d.size() < o.off + m)
                d.resize(o.off + m);
            d.replace(o.off, m, bytes, o.data, m);
            break;
        }
        case RENAME:
            if (name.count(o.path)) {
                int i = name[o.path];
                name.erase(o.path);
                name[o.path2] = i;
            } else
                unknown = true;
            break;
        case UNLINK:
            name.erase(o.path);
            break;
        case MKDIR:
            name[std::string(o.path) + "/"] = -1;
            break;
        case UNKNOWN:
            unknown = true;
            break;
        }
    }
    const std::string *get(const std::string &p) const {
        auto it = name.find(p);
        if (it == name.end() || it->second < 0)
            return nullptr;
        return &data.at(it->second);
    }
};
} // namespace fsrec

#ifndef VP_FSREC_NOMPI
extern "C" {
int MPI_Barrier(MPI_Comm c) {
    fsrec::sync(fsrec::ALL, c);
    int r = PMPI_Barrier(c);
    return r;
}
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) {
    fsrec::sync(fsrec::ALL, c);
    return PMPI_Allreduce(a, b, n, d, o, c);
}
int MPI_Allgather(const void *a, int n, MPI_Datatype d, void *b, int m, MPI_Datatype e, MPI_Comm c) {
    fsrec::sync(fsrec::ALL, c);
    return PMPI_Allgather(a, n, d, b, m, e, c);
}
int MPI_Allgatherv(const void *a, int n, MPI_Datatype d, void *b, const int *m, const int *q, MPI_Datatype e, MPI_Comm c) {
    fsrec::sync(fsrec::ALL, c);
    return PMPI_Allgatherv(a, n, d, b, m, q, e, c);
}
int MPI_Alltoall(const void *a, int n, MPI_Datatype d, void *b, int m, MPI_Datatype e, MPI_Comm c) {
    fsrec::sync(fsrec::ALL, c);
    return PMPI_Alltoall(a, n, d, b, m, e, c);
}
int MPI_Gather(const void *a, int n, MPI_Datatype d, void *b, int m, MPI_Datatype e, int root, MPI_Comm c) {
    fsrec::sync(fsrec::TO_ROOT, c, root);
    return PMPI_Gather(a, n, d, b, m, e, root, c);
}
int MPI_Gatherv(const void *a, int n, MPI_Datatype d, void *b, const int *m, const int *q, MPI_Datatype e, int root, MPI_Comm c) {
    fsrec::sync(fsrec::TO_ROOT, c, root);
    return PMPI_Gatherv(a, n, d, b, m, q, e, root, c);
}
int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c) {
    fsrec::sync(fsrec::TO_ROOT, c, root);
    return PMPI_Reduce(a, b, n, d, o, root, c);
}
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) {
    fsrec::sync(fsrec::FROM_ROOT, c, root);
    return PMPI_Bcast(b, n, d, root, c);
}
int MPI_Scatter(const void *a, int n, MPI_Datatype d, void *b, int m, MPI_Datatype e, int root, MPI_Comm c) {
    fsrec::sync(fsrec::FROM_ROOT, c, root);
    return PMPI_Scatter(a, n, d, b, m, e, root, c);
}
int MPI_Send(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) {
    fsrec::sync(fsrec::SEND, c, dst, tag);
    return PMPI_Send(b, n, d, dst, tag, c);
}
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) {
    fsrec::sync(fsrec::SEND, c, dst, tag);
    return PMPI_Ssend(b, n, d, dst, tag, c);
}
int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status *s) {
    MPI_Status st;
    int r = PMPI_Recv(b, n, d, src, tag, c, &st);
    if (s != MPI_STATUS_IGNORE)
        *s = st;
    fsrec::sync(fsrec::RECV, c, st.MPI_SOURCE, st.MPI_TAG);
    return r;
}
}
#endif
#endif
