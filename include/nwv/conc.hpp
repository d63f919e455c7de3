// nwv/conc.hpp: include first in harnesses of parallel algorithms: perturbs the library's atomic accesses.
#pragma once
#define NWGRAPH_VERIFY_HOOKS
#include "nw.hpp"
#include "perturb.hpp"
#include <nwgraph/util/atomic.hpp>
namespace nwv {
inline int conc_main(int argc, char** argv) {
  Perturb::install(&nwg::verify_atomic_hook);
  hooks().before = [](Ctx& c) { Rng r(c.rng.s ^ 0x5bd1e995); Perturb::seed(r);
#ifdef NWV_SHIM
    nwv_shim::seed(r());
#endif
  };
  hooks().after = [](Ctx& c) { c.count("atomic accesses perturbed (yields)", Perturb::yields().exchange(0)); c.count("atomic accesses seen", Perturb::hits().exchange(0));
#ifdef NWV_SHIM
    count_shim(c);
#endif
  };
  return nwv::main(argc, argv);
}
}    // namespace nwv
#define NWV_CONC_MAIN int main(int argc, char** argv) { return nwv::conc_main(argc, argv); }
