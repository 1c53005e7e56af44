#ifndef VP_TRNG_mrg5
#define VP_TRNG_mrg5
#include "stub.hpp"
namespace trng {
class mrg5 : public stub::engine {
  public:
    mrg5() {}
    explicit mrg5(unsigned long s) : stub::engine(s) {}
};
}
#endif
