// Readers of the files the library writes, independent of the library.
#ifndef VP_IO_HPP
#define VP_IO_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
namespace io {
struct Row {
    char type = 0;
    int gid = 0, group = 0;
    double radius = 0, m[3] = {0, 0, 0}, p[3] = {0, 0, 0};
};
struct Ascii {
    bool ok = false;
    int n = -1;
    double time = -1;
    std::vector<Row> rows;
    std::vector<std::pair<int, int>> links;
    std::string err;
};
inline bool exists(const std::string &f) {
    struct stat st;
    return stat(f.c_str(), &st) == 0;
}
inline std::string slurp(const std::string &fn) {
    std::ifstream f(fn);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
inline Ascii ascii(const std::string &fn) {
    Ascii a;
    std::ifstream f(fn);
    if (!f) {
        a.err = "no file " + fn;
        return a;
    }
    std::string line;
    if (!std::getline(f, line) || sscanf(line.c_str(), "%d", &a.n) != 1) {
        a.err = "particle number missing";
        return a;
    }
    if (!std::getline(f, line) || sscanf(line.c_str(), "%lf", &a.time) != 1) {
        a.err = "time missing";
        return a;
    }
    while (std::getline(f, line)) {
        if (line.empty())
            continue;
        if (line[0] == 'L') {
            int x, y;
            if (sscanf(line.c_str(), "L %d %d", &x, &y) != 2) {
                a.err = "bad link line " + line;
                return a;
            }
            a.links.push_back({x, y});
        } else {
            Row r;
            if (sscanf(line.c_str(), "%c %d %lf %lf %lf %lf %lf %lf %lf %d", &r.type, &r.gid, &r.radius, &r.m[0], &r.m[1], &r.m[2], &r.p[0], &r.p[1], &r.p[2],
                       &r.group) != 10) {
                a.err = "bad particle line " + line;
                return a;
            }
            a.rows.push_back(r);
        }
    }
    a.ok = true;
    return a;
}
struct Info {
    bool ok = false;
    unsigned long seed = 0, step = 0, snap = 0;
    std::string pvtp;
};
inline Info info(const std::string &fn) {
    Info i;
    std::string s = slurp(fn);
    std::istringstream f(s);
    if (f >> i.seed >> i.step >> i.snap >> i.pvtp)
        i.ok = !s.empty() && s.back() == '\n';
    return i;
}
// the file of the given name in any folder below ./result, with its folder
inline std::string find(const std::string &name, int *copies = nullptr) {
    std::string r;
    int c = 0;
    DIR *d = opendir("result");
    if (d) {
        while (dirent *e = readdir(d)) {
            std::string s = std::string("result/") + e->d_name;
            if (e->d_name[0] != '.' && exists(s + "/" + name)) {
                r = s + "/" + name;
                c++;
            }
        }
        closedir(d);
    }
    if (copies)
        *copies = c;
    return r;
}
inline std::set<int> snapshots() { // the snapshot numbers present
    std::set<int> r;
    DIR *d = opendir("result");
    if (d) {
        while (dirent *e = readdir(d)) {
            if (e->d_name[0] == '.')
                continue;
            std::string s = std::string("result/") + e->d_name;
            DIR *q = opendir(s.c_str());
            if (!q)
                continue;
            while (dirent *g = readdir(q)) {
                int n;
                char c = 0;
                if (sscanf(g->d_name, "SylinderAscii_%d.da%c", &n, &c) == 2 && c == 't')
                    r.insert(n);
            }
            closedir(q);
        }
        closedir(d);
    }
    return r;
}
// remove what a run has written into the current scratch directory
inline void clean() {
    char buf[4096];
    if (!getcwd(buf, sizeof buf) || strstr(buf, "/repo") || strlen(buf) < 4)
        return;
    DIR *d = opendir("result");
    if (d) {
        while (dirent *e = readdir(d)) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
                continue;
            std::string s = std::string("result/") + e->d_name;
            DIR *q = opendir(s.c_str());
            if (q) {
                while (dirent *g = readdir(q))
                    if (strcmp(g->d_name, ".") && strcmp(g->d_name, ".."))
                        unlink((s + "/" + g->d_name).c_str());
                closedir(q);
                rmdir(s.c_str());
            } else
                unlink(s.c_str());
        }
        closedir(d);
        rmdir("result");
    }
    unlink("TimeStepInfo.txt");
}
} // namespace io
#endif
