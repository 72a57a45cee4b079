// Counts how often the tableau is pivoted.  The linker redirects calls of
// Tableau::pivot (--wrap in tools/build.py); nothing is counted if there is no
// function of that name and type.
#include "pivots.hh"

#include <atomic>

namespace {
std::atomic<long long> count{0};
}

void pivots_reset() { count = 0; }
long long pivots_count() { return count; }

extern "C" {
long __real__ZN7Tableau5pivotEjjR7IntegerS1_(void *, unsigned, unsigned, void *, void *) __attribute__((weak));
long __wrap__ZN7Tableau5pivotEjjR7IntegerS1_(void *self, unsigned i, unsigned j, void *a, void *d) {
    count.fetch_add(1, std::memory_order_relaxed);
    return __real__ZN7Tableau5pivotEjjR7IntegerS1_(self, i, j, a, d);
}
}
