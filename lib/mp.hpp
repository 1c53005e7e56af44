// Small helpers for harnesses that run on several MPI ranks without the particle system.
#ifndef VP_MP_HPP
#define VP_MP_HPP
#include <fcntl.h>
#include <mpi.h>
#include <unistd.h>
#include <vector>
#include "vp.hpp"
namespace mp {
static int rank = 0, np = 1;
inline void quiet() {
    if (!getenv("VP_STDOUT")) {
        fflush(stdout);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        close(fd);
    }
}
inline void start(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    vp::init(argc, argv, rank);
    quiet();
}
inline void stop() {
    vp::finish();
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
}
inline bool any(int b) {
    int r = 0;
    b = b != 0;
    MPI_Allreduce(&b, &r, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return r;
}
template <class T>
std::vector<T> gather(const std::vector<T> &v, std::vector<int> *counts = nullptr) {
    int n = (int)(v.size() * sizeof(T));
    std::vector<int> c(np), d(np + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < np; i++)
        d[i + 1] = d[i] + c[i];
    std::vector<T> r(d[np] / sizeof(T));
    MPI_Allgatherv((void *)v.data(), n, MPI_BYTE, r.data(), c.data(), d.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (counts) {
        counts->resize(np);
        for (int i = 0; i < np; i++)
            (*counts)[i] = c[i] / (int)sizeof(T);
    }
    return r;
}
} // namespace mp
#endif
