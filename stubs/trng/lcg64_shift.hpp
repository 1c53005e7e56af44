#ifndef VP_TRNG_lcg64_shift
#define VP_TRNG_lcg64_shift
#include "stub.hpp"
namespace trng {
class lcg64_shift : public stub::engine {
  public:
    lcg64_shift() {}
    explicit lcg64_shift(unsigned long s) : stub::engine(s) {}
};
}
#endif
