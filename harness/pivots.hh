#pragma once

// number of pivots since the last reset, over all threads (0 if they cannot be counted)
void pivots_reset();
long long pivots_count();
