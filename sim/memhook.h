// The memory seam: every C++ and Eigen allocation of the simulator passes here.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
struct MemHook {
  // contents and layout of fresh memory
  bool fill = false; unsigned char fresh = 0, freed = 0; uint64_t pad = 0;   // pad: seed of extra bytes per block (0 = none)
  // failing allocations
  bool failing = false; long fail_at = 0; bool persistent = false; long count = 0; long failed = 0;
  // blocks allocated while tracking and not freed yet
  bool tracking = false; long live = 0;
};
extern MemHook g_mem;
extern void (*g_on_alloc)(void*, size_t);   // told about every fresh block
extern int g_nofail;          // >0: allocations do not fail (third-party code that cannot report it)
long mem_live();            // tracked blocks still allocated
void mem_track_reset();
void stir_stack(unsigned char c);
}
