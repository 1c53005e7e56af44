// Controlled OpenMP runtime: the parallel regions of the code under test run on virtual threads of which exactly one runs at a time; the
// scheduler decides at every synchronisation point which one continues, and every memory access of a region is recorded and checked for races.
#ifndef VP_OMPRT_HPP
#define VP_OMPRT_HPP
#include <cstdint>
#include <string>
#include <vector>

namespace omprt {

struct Decision {
    int options, chosen;
    bool runnable; // the running thread could have gone on (choices != 0 are preemptions)
};

struct Policy {
    int threads = 1;           // what omp_get_max_threads() says
    std::vector<int> order;    // priority of threads at the start of a region and when the running one stops (empty: ascending)
    bool alternate = false;    // switch at every synchronisation point
    long target = -1;          // explored region instance
    std::vector<int> prefix;   // choices in the explored region
};

struct Region {
    std::string name;  // symbol of the outlined body
    int threads;       // team size
    int decisions;     // number of decisions taken in it
    bool sync;         // it has critical sections, atomics, locks or dynamically assigned chunks
};

struct Race {
    std::string region, what; // symbol, description
};

void setup();                      // once, before anything runs
void begin(const Policy &p);       // start recording
void end();                        // stop recording; regions run by the real runtime again
extern std::vector<Region> regions;      // regions of the last recording
extern std::vector<Decision> decisions;  // decisions in the target region
extern std::vector<Race> races;
extern uint64_t nAccess, nSwitch, nSync, nBarrier, nOverflow;
extern bool diverged;              // the prefix did not fit the options met
std::string where(void *pc);       // symbol + offset, for messages
} // namespace omprt
#endif
