// Allocation seam of the explorers (not used in the sanitizer build): every malloc/calloc/realloc of the process
// goes through here, so that the explorer decides what fresh memory contains, can make the k-th allocation of a
// call fail, and can count what a call left allocated.
#pragma once
#include <cstddef>
struct AllocCtl {
    bool armed = false;       // count / inject only while a library call runs
    long live = 0;            // allocations minus frees while armed
    long count = 0;           // allocations seen while armed
    long fail_at = -1;        // 1-based index of the allocation that fails
    bool fail_after = false;  // also fail every later one
    bool failed = false;
    int fill = -1;            // byte written into fresh blocks (-1: leave)
    long bytes = 0, peak = 0; // bytes in blocks allocated and not freed while armed, and their maximum
};
extern AllocCtl g_alloc;
extern long g_work; // basic blocks of the library executed (the "work" build only)
