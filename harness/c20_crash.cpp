// C20: every crash point of the writing of every snapshot of a run.  The file operations of all ranks are recorded (system call level) while the
// real program steps; every consistent cut of them (a prefix per rank, respecting the MPI operations that order the ranks), also with the last
// write of a rank cut in its middle, gives one directory a crash can leave behind.  In each one the restart record must name a complete snapshot.
// For every rank and every operation the directory left when that rank stops there (the others going on as far as they can) is really restarted.
#include "fsrec.hpp"
#include "io.hpp"
#include "sys.hpp"
#include "vtk.hpp"
#include <algorithm>
using fsrec::FS;
using fsrec::Op;
using sys::Part;

struct Rec {
    bool present = false, ok = false;
    unsigned long seed = 0, step = 0, snap = 0;
    std::string pvtp;
    bool operator==(const Rec &o) const { return ok == o.ok && seed == o.seed && step == o.step && snap == o.snap && pvtp == o.pvtp; }
};
static Rec parse(const std::string *s) {
    Rec r;
    if (!s)
        return r;
    r.present = true;
    std::istringstream f(*s);
    if (f >> r.seed >> r.step >> r.snap >> r.pvtp)
        r.ok = true;
    return r;
}
static const char *REC = "TimeStepInfo.txt";

struct Ev { // a file operation with what happened before it
    Op op;
    std::vector<int> vc; // number of file operations of every rank that happened before or are it
};

// vector clocks from the logs of all ranks
static std::vector<std::vector<Ev>> order(const std::vector<std::vector<Op>> &logs) {
    const int n = (int)logs.size();
    std::vector<std::vector<Ev>> ev(n);
    std::vector<size_t> at(n, 0);
    std::vector<std::vector<int>> vc(n, std::vector<int>(n, 0));
    typedef std::vector<long> Key;
    std::map<Key, int> cnt;                        // occurrences seen by a rank
    std::map<Key, std::map<int, std::vector<int>>> in; // entry clocks of a collective, by rank
    std::map<int, Key> pending;
    auto join = [](std::vector<int> &a, const std::vector<int> &b) {
        for (size_t i = 0; i < a.size(); i++)
            a[i] = std::max(a[i], b[i]);
    };
    bool moved = true;
    while (moved) {
        moved = false;
        for (int r = 0; r < n; r++)
            while (at[r] < logs[r].size()) {
                const Op &o = logs[r][at[r]];
                if (o.kind != fsrec::SYNC) {
                    vc[r][r]++;
                    ev[r].push_back({o, vc[r]});
                    at[r]++;
                    moved = true;
                    continue;
                }
                if (!pending.count(r)) { // enter
                    Key k;
                    if (o.sync == fsrec::SEND)
                        k = {100, r, o.root, o.tag};
                    else if (o.sync == fsrec::RECV)
                        k = {100, o.root, r, o.tag};
                    else
                        k = {o.sync, (long)o.mask, o.sync == fsrec::ALL ? 0 : o.root};
                    Key c = k;
                    c.push_back(1000 + r);
                    c.push_back(o.sync == fsrec::RECV);
                    k.push_back(cnt[c]++);
                    pending[r] = k;
                    if (o.sync != fsrec::RECV)
                        in[k][r] = vc[r];
                    moved = true;
                }
                const Key &k = pending[r];
                auto &m = in[k];
                bool go = true;
                if (o.sync == fsrec::ALL) {
                    for (int q = 0; q < n; q++)
                        if ((o.mask >> q & 1) && !m.count(q))
                            go = false;
                    if (go)
                        for (auto &q : m)
                            join(vc[r], q.second);
                } else if (o.sync == fsrec::TO_ROOT && r == o.root) {
                    for (int q = 0; q < n; q++)
                        if ((o.mask >> q & 1) && !m.count(q))
                            go = false;
                    if (go)
                        for (auto &q : m)
                            join(vc[r], q.second);
                } else if (o.sync == fsrec::FROM_ROOT && r != o.root) {
                    go = m.count(o.root);
                    if (go)
                        join(vc[r], m[o.root]);
                } else if (o.sync == fsrec::RECV) {
                    go = m.count(o.root);
                    if (go)
                        join(vc[r], m[o.root]);
                }
                if (!go)
                    break;
                pending.erase(r);
                at[r]++;
                moved = true;
            }
        if (!moved)
            for (int r = 0; r < n; r++)
                if (at[r] < logs[r].size()) { // an operation without partner: it orders nothing
                    pending.erase(r);
                    at[r]++;
                    vp::count("unmatched_mpi");
                    moved = true;
                    break;
                }
    }
    return ev;
}

static std::vector<std::vector<Op>> gatherLogs(std::string &bytes) {
    std::vector<Op> l = fsrec::log();
    std::vector<char> ar(fsrec::arena().begin(), fsrec::arena().end());
    std::vector<int> cl, ca;
    auto L = sys::gather(l, &cl);
    auto A = sys::gather(ar, &ca);
    bytes.assign(A.begin(), A.end());
    std::vector<std::vector<Op>> r(sys::nproc);
    size_t i = 0, b = 0;
    for (int k = 0; k < sys::nproc; k++) {
        for (int j = 0; j < cl[k]; j++, i++) {
            Op o = L[i];
            o.data += (long)b;
            o.rank = k;
            r[k].push_back(o);
        }
        b += ca[k];
    }
    return r;
}

static void replay(FS &fs, const std::vector<std::vector<Ev>> &ev, const std::vector<int> &cut, int tornRank, long tornLen, const std::string &bytes) {
    std::vector<std::pair<double, const Op *>> v;
    for (size_t r = 0; r < ev.size(); r++)
        for (int i = 0; i < cut[r]; i++)
            v.push_back({ev[r][i].op.t, &ev[r][i].op});
    std::stable_sort(v.begin(), v.end(), [](const std::pair<double, const Op *> &a, const std::pair<double, const Op *> &b) { return a.first < b.first; });
    for (auto &p : v) {
        bool torn = tornRank >= 0 && p.second == &ev[tornRank][cut[tornRank] - 1].op;
        fs.apply(*p.second, bytes, torn ? tornLen : -1);
    }
}

typedef std::map<std::string, std::string> Files;
static Files data(const FS &fs, const char *prefix = "result/") {
    Files f;
    for (auto &n : fs.name)
        if (n.second >= 0 && n.first.compare(0, strlen(prefix), prefix) == 0)
            f[n.first] = fs.data.at(n.second);
    return f;
}

struct Saved { // what the run was when a snapshot was written, after the move of that step
    Rec rec;
    Files files;
    std::vector<Sylinder> parts;
};

static std::multimap<int, int> links(SylinderSystem &s) {
    std::multimap<int, int> m;
    for (auto &l : s.getLinkMap())
        m.insert(l);
    return m;
}

static void mkdirs(const std::string &p) {
    for (size_t i = 1; i < p.size(); i++)
        if (p[i] == '/')
            mkdir(p.substr(0, i).c_str(), 0755);
}
static void rmtree(const std::string &d) {
    if (d.compare(0, 6, "crash/") != 0)
        return;
    DIR *q = opendir(d.c_str());
    if (!q)
        return;
    while (dirent *e = readdir(q)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
            continue;
        std::string s = d + "/" + e->d_name;
        struct stat st;
        if (lstat(s.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            rmtree(s);
        else
            unlink(s.c_str());
    }
    closedir(q);
    rmdir(d.c_str());
}

static bool consistentCut(const std::vector<std::vector<Ev>> &ev, const std::vector<int> &c) {
    const int n = (int)ev.size();
    for (int r = 0; r < n; r++)
        if (c[r])
            for (int q = 0; q < n; q++)
                if (ev[r][c[r] - 1].vc[q] > c[q])
                    return false;
    return true;
}

// every consistent cut of the operations ev on top of base: the record names one of the last two saved snapshots and that one is complete
static void cuts(const FS &base, const std::vector<std::vector<Ev>> &ev, const std::vector<int> &full, const std::string &bytes, const std::vector<Saved> &saved,
                 const std::string &hk, bool mayMiss, bool torn) {
    const int n = (int)ev.size();
    std::vector<int> cut(n, 0);
    // states: the record and the files of the snapshots it may name
    auto check = [&](const std::vector<int> &c, int tr, long len, const std::string &key) {
        if (!vp::begin(key))
            return;
        vp::S().states++;
        FS fs = base;
        replay(fs, ev, c, tr, len, bytes);
        Rec r = parse(fs.get(REC));
        const Saved *ref = nullptr;
        for (size_t k = saved.size() >= 2 ? saved.size() - 2 : 0; k < saved.size(); k++)
            if (r.ok && saved[k].rec == r)
                ref = &saved[k];
        std::string o = "none";
        if (!r.present) {
            VP_CHECK(mayMiss, "the restart record is missing although %zu snapshots were written", saved.size());
        } else if (!r.ok || !ref) {
            vp::fail("torn restart record '%s'", fs.get(REC)->substr(0, 80).c_str());
        } else {
            o = vp::fmt("%lu", r.snap);
            size_t good = 0;
            for (auto &f : ref->files) {
                const std::string *d = fs.get(f.first);
                if (!d)
                    vp::fail("the record names snapshot %lu, whose file %s does not exist", r.snap, f.first.c_str());
                else if (*d != f.second)
                    vp::fail("the record names snapshot %lu, whose file %s is incomplete (%zu of %zu bytes)", r.snap, f.first.c_str(), d->size(), f.second.size());
                else
                    good++;
            }
            o += vp::fmt(" %zu", good);
            vp::nontrivial();
        }
        uint64_t h = vp::fnv(o);
        for (auto &f : fs.name)
            h = vp::mix(h, f.second < 0 ? 1 : fs.data[f.second].size());
        vp::outcome(h);
    };
    while (true) {
        if (consistentCut(ev, cut)) {
            std::string key = hk + " cut";
            for (int r = 0; r < n; r++)
                key += vp::fmt(" %d/%d", cut[r], full[r]);
            check(cut, -1, 0, key);
            vp::S().transitions += n;
            for (int r = 0; r < n; r++)
                if (cut[r] && torn && ev[r][cut[r] - 1].op.kind == fsrec::WRITE) {
                    // the last write of this rank is cut short; only states where nothing ran after it
                    bool last = true;
                    for (int q = 0; q < n; q++)
                        if (q != r && cut[q] && ev[q][cut[q] - 1].vc[r] >= cut[r])
                            last = false;
                    long L = ev[r][cut[r] - 1].op.len;
                    if (last)
                        for (long m : std::set<long>{1, L / 2, L - 1})
                            if (m > 0 && m < L && (L < 200 || m == L / 2 || vp::S().thorough))
                                check(cut, r, m, key + vp::fmt(" rank%d torn %ld/%ld", r, m, L));
                }
        }
        int k = 0;
        while (k < n && cut[k] == full[k])
            cut[k++] = 0;
        if (k == n)
            break;
        cut[k]++;
    }
}

// restart the program in the directory the crash left
static void restart(const std::string &key, const SylinderConfig &cf, int every, const FS &fs, const std::vector<Saved> &saved, const std::multimap<int, int> &lk, std::string &why, bool second) {
    const std::string top = "crash", dir = "crash/" + std::to_string((unsigned long)(vp::fnv(key) % 1000000007));
    int which = -2;
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd))
        _exit(3);
    if (sys::rank == 0) {
        mkdir(top.c_str(), 0755);
        rmtree(dir);
        mkdir(dir.c_str(), 0755);
        for (auto &n : fs.name) {
            mkdirs(dir + "/" + n.first);
            if (n.second >= 0) {
                FILE *f = fopen((dir + "/" + n.first).c_str(), "w");
                fwrite(fs.data.at(n.second).data(), 1, fs.data.at(n.second).size(), f);
                fclose(f);
            }
        }
        Rec r = parse(fs.get(REC));
        which = -1;
        for (size_t i = 0; i < saved.size(); i++)
            if (r.ok && saved[i].rec == r)
                which = (int)i;
    }
    MPI_Bcast(&which, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (chdir(dir.c_str()))
        _exit(3);
    if (which >= 0) {
        const Saved &sv = saved[which];
        SylinderSystem s;
        char a0[] = "x";
        char *av[] = {a0, nullptr};
        MPI_Barrier(MPI_COMM_WORLD);
        if (second)
            fsrec::begin();
        s.reinitialize(cf, REC, 1, av, true);
        auto p = sys::particles(s);
        vp::count("real_restarts");
        std::map<int, const Sylinder *> m;
        for (auto &a : sv.parts)
            m[a.gid] = &a;
        if (p.size() != sv.parts.size())
            why = vp::fmt("restart has %zu particles, the run had %zu", p.size(), sv.parts.size());
        for (auto &a : p) {
            if (!m.count(a.gid)) {
                why = vp::fmt("restart has an unknown particle %d", a.gid);
                continue;
            }
            const Sylinder &b = *m[a.gid];
            Evec3 d(a.pos[0] - b.pos[0], a.pos[1] - b.pos[1], a.pos[2] - b.pos[2]);
            for (int k = 0; k < 3; k++)
                if (cf.simBoxPBC[k]) {
                    double L = cf.simBoxHigh[k] - cf.simBoxLow[k];
                    d[k] -= L * std::round(d[k] / L);
                }
            if (d.norm() > 1e-4 || (sys::axis(a.orientation) - sys::axis(b.orientation)).norm() > 1e-4 || a.group != b.group || a.isImmovable != b.isImmovable ||
                std::fabs(a.length - b.length) > 1e-4 || std::fabs(a.radius - b.radius) > 1e-4)
                why = vp::fmt("particle %d of the restart is not the one of the run (moved by %g)", a.gid, d.norm());
        }
        if (links(s) != lk)
            why = vp::fmt("restart has %zu links, the run had %zu", links(s).size(), lk.size());
        if (s.getStepCount() != (int)sv.rec.step + 1 || s.getSnapID() != (int)sv.rec.snap + 1)
            why = vp::fmt("restart at step %d snapshot %d after a record of step %lu snapshot %lu", s.getStepCount(), s.getSnapID(), sv.rec.step, sv.rec.snap);
        // and it goes on: the next snapshot is complete whatever the crash has left of it
        for (int k = 0; k < every; k++) {
            s.prepareStep();
            s.runStep();
        }
        if (second)
            fsrec::end();
        MPI_Barrier(MPI_COMM_WORLD);
        if (second) { // and it may crash again, at every point
            std::string bytes;
            auto logs = gatherLogs(bytes);
            if (sys::rank == 0) {
                auto ev = order(logs);
                std::vector<int> full;
                for (auto &e : ev)
                    full.push_back((int)e.size());
                FS after = fs;
                replay(after, ev, full, -1, 0, bytes);
                bool same = !after.unknown;
                for (auto &n : after.name)
                    if (n.second >= 0)
                        same = same && io::exists(n.first) && io::slurp(n.first) == after.data[n.second];
                if (!same)
                    vp::count("unmodelled_step");
                else {
                    vp::S().traces++;
                    Saved nx;
                    nx.rec = parse(after.get(REC));
                    Files b = data(fs), a = data(after);
                    for (auto &f : a) {
                        bool named = !b.count(f.first) || b[f.first] != f.second;
                        for (auto &o : saved)
                            if (o.rec.snap == nx.rec.snap && o.files.count(f.first))
                                named = true;
                        if (named)
                            nx.files[f.first] = f.second;
                    }
                    cuts(fs, ev, full, bytes, {sv, nx}, key + " again", false, vp::S().thorough);
                    vp::count("double_crashes");
                }
            }
        }
        if (sys::rank == 0 && why.empty()) {
            io::Info i = io::info(REC);
            if (!i.ok || i.snap != sv.rec.snap + 1 || i.step != sv.rec.step + every)
                why = vp::fmt("the record written after the restart names step %lu snapshot %lu", i.step, i.snap);
            auto a = io::ascii(io::find(vp::fmt("SylinderAscii_%lu.dat", i.snap)));
            if (!a.ok || a.rows.size() != sv.parts.size() || a.links.size() != lk.size())
                why = "the snapshot written after the restart is incomplete";
            auto v = vtk::readP(io::find(i.pvtp));
            if (why.empty() && (!v.ok || v.points != 2 * (long)sv.parts.size()))
                why = "the snapshot written after the restart is incomplete (" + v.err + ")";
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (chdir(cwd))
        _exit(3);
    if (sys::rank == 0)
        rmtree(dir);
    MPI_Barrier(MPI_COMM_WORLD);
}

static void history(int var, int every, int snaps) {
    auto cf = sys::config();
    cf.dt = 0.01;
    cf.timeSnap = every * cf.dt;
    cf.KBT = var == 2 ? 0.01 : 0;
    for (int k = 0; k < 3; k++)
        cf.simBoxPBC[k] = var == 1;
    if (sys::rank == 0)
        io::clean();
    MPI_Barrier(MPI_COMM_WORLD);
    const int N = var == 3 ? 120 : 6; // var 3: files of many writes
    std::vector<Part> p(N);
    for (int i = 0; i < N; i++) {
        p[i].gid = i * 3 + var;
        p[i].group = i % 3 - 1;
        p[i].radius = 0.5;
        p[i].length = i % 2 ? 1.0 : 0;
        p[i].imm = i == 4;
        p[i].pos = Evec3(1.2 + 1.1 * i, 3 + 0.3 * (i % 2), 4 + 0.2 * (i % 3));
        if (var == 3) {
            p[i].radius = 0.2;
            p[i].length = 0.4;
            p[i].pos = Evec3(0.5 + 1.1 * (i % 7) + 0.2 * (i % 2), 0.5 + 1.1 * (i / 7 % 7), 1 + 1.9 * (i / 49));
        }
        p[i].q = sys::dirq(i % 3 - 1, 1, i % 2);
    }
    std::vector<Link> l;
    if (var != 2)
        for (int i : {0, 2}) {
            Link k;
            k.prev = p[i].gid;
            k.next = p[i + 1].gid;
            l.push_back(k);
        }
    auto s = sys::make(cf, p, l);
    const auto lk = links(*s);
    FS base;
    std::vector<Saved> saved;
    {
        // what the initialisation has left: the result folder
        if (io::exists("result"))
            base.name["result/"] = -1;
    }
    for (int step = 0; (int)saved.size() < snaps; step++) {
        MPI_Barrier(MPI_COMM_WORLD);
        s->prepareStep();
        bool w = s->getIfWriteResultCurrentStep();
        MPI_Barrier(MPI_COMM_WORLD);
        fsrec::begin();
        s->runStep();
        fsrec::end();
        MPI_Barrier(MPI_COMM_WORLD);
        std::string bytes;
        auto logs = gatherLogs(bytes);
        auto ev = order(logs);
        std::vector<int> full;
        for (auto &e : ev)
            full.push_back((int)e.size());
        FS after = base;
        replay(after, ev, full, -1, 0, bytes);
        // conformance of the model: the same bytes on the real disk
        bool same = !after.unknown;
        if (sys::rank == 0)
            for (auto &n : after.name)
                if (n.second >= 0) {
                    same = same && io::exists(n.first) && io::slurp(n.first) == after.data[n.second];
                    vp::count("files_conform");
                }
        int sm = same;
        MPI_Bcast(&sm, 1, MPI_INT, 0, MPI_COMM_WORLD);
        if (!sm) {
            vp::count("unmodelled_step");
            if (sys::rank == 0)
                fprintf(stderr, "the recorded operations do not give the directory of the run\n");
            return;
        }
        vp::S().traces++;
        Rec now = parse(after.get(REC));
        Saved cur;
        if (w) {
            cur.rec = now;
            Files b = data(base), a = data(after);
            for (auto &f : a)
                if (!b.count(f.first) || b[f.first] != f.second)
                    cur.files[f.first] = f.second;
            cur.parts = sys::particles(*s);
            saved.push_back(cur);
        }
        const std::string hk = vp::fmt("var%d every%d step%d", var, every, step);
        if (w && vp::begin(hk + " complete")) {
            VP_CHECK(now.ok && now.snap == saved.size() - 1 && (int)now.step == step, "after the step the record names step %lu snapshot %lu", now.step, now.snap);
            VP_CHECK(cur.files.size() >= 2, "the snapshot has %zu files", cur.files.size());
            VP_CHECK(!io::find(now.pvtp).empty(), "the record names %s, which does not exist", now.pvtp.c_str());
        }
        std::vector<std::vector<int>> todo; // cuts to be restarted
        std::vector<std::string> keys;
        if (sys::rank == 0) {
            const int n = sys::nproc;
            auto consistent = [&](const std::vector<int> &c) { return consistentCut(ev, c); };
            cuts(base, ev, full, bytes, saved, hk, saved.size() == 1 && w, true);
            // one rank stops after i operations, the others go on as far as they can
            if (w)
                for (int r = 0; r < n; r++)
                    for (int i = 0; i <= full[r]; i++) {
                        std::vector<int> c = full;
                        c[r] = i;
                        bool ch = true;
                        while (ch) {
                            ch = false;
                            for (int q = 0; q < n; q++)
                                if (q != r)
                                    while (c[q] > 0) {
                                        bool bad = false;
                                        for (int z = 0; z < n; z++)
                                            if (ev[q][c[q] - 1].vc[z] > c[z])
                                                bad = true;
                                        if (!bad)
                                            break;
                                        c[q]--;
                                        ch = true;
                                    }
                        }
                        bool okc = consistent(c);
                        if (okc) {
                            todo.push_back(c);
                            keys.push_back(hk + vp::fmt(" restart: rank %d stops after %d of %d", r, i, full[r]));
                        }
                    }
        }
        // restarts, on all ranks
        int nt = (int)todo.size();
        MPI_Bcast(&nt, 1, MPI_INT, 0, MPI_COMM_WORLD);
        for (int t = 0; t < nt; t++) {
            std::vector<int> c(sys::nproc);
            char kb[256] = {0};
            if (sys::rank == 0) {
                c = todo[t];
                strncpy(kb, keys[t].c_str(), 255);
            }
            MPI_Bcast(c.data(), sys::nproc, MPI_INT, 0, MPI_COMM_WORLD);
            MPI_Bcast(kb, 256, MPI_CHAR, 0, MPI_COMM_WORLD);
            FS fs = base;
            replay(fs, ev, c, -1, 0, bytes);
            // only directories in which the record names something complete can be restarted; the others are reported above
            int ok = 1;
            if (sys::rank == 0) {
                Rec r = parse(fs.get(REC));
                ok = 0;
                for (auto &sv : saved)
                    if (r.ok && sv.rec == r) {
                        ok = 1;
                        for (auto &f : sv.files)
                            if (!fs.get(f.first) || *fs.get(f.first) != f.second)
                                ok = 0;
                    }
            }
            MPI_Bcast(&ok, 1, MPI_INT, 0, MPI_COMM_WORLD);
            const std::string again = std::string(kb) + " again"; // a case of the run after this restart may be asked for
            if (!ok || !(vp::begin(kb) || vp::S().only.compare(0, again.size(), again) == 0))
                continue;
            std::string why;
            restart(kb, cf, every, fs, saved, lk, why, sys::nproc <= 3 && var != 3 );
            vp::S().cur = kb;
            VP_CHECK(why.empty(), "%s", why.c_str());
            vp::outcome(vp::fnv(std::string(kb)));
        }
        base = after;
    }
}

int main(int argc, char **argv) {
    sys::start(argc, argv);
    if (!fsrec::install()) {
        fprintf(stderr, "system calls cannot be trapped here\n");
        return 3;
    }
    bool th = vp::S().thorough;
    for (int var = 0; var < 3; var++)
        for (int every = 1; every <= (th ? 3 : (var == 0 ? 2 : 1)); every++)
            history(var, every, th ? 4 : 3);
    if (sys::nproc <= (th ? 3 : 2))
        history(3, 1, 2);
    vp::done();
    sys::stop();
    return 0;
}
