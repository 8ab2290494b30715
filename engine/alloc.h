// Allocation faults and accounting for library calls (link-time wrapping; works under AddressSanitizer).
// Harness header line:  // VF use: alloc   // VF wrap: malloc,calloc,realloc,reallocarray,free,strdup,strndup
#pragma once
#include <stddef.h>
namespace vf {
// Between alloc_enter and alloc_leave the wrapped calls count as the library's. fail_from..fail_to (1-based, inclusive;
// 0 = none): those allocation calls return NULL.
void alloc_enter(long fail_from = 0, long fail_to = 0);
long alloc_leave();          // allocation calls seen since alloc_enter
long alloc_failed();         // of which failed
long alloc_live();           // blocks allocated by the library and not freed (by anyone) yet
void alloc_reset();          // forget all blocks
struct AllocPause { bool was; AllocPause(); ~AllocPause(); }; // harness code called back from the library
}
