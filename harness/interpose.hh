// Records what the real clingo and the theory exchange through the propagator interface.
#pragma once
#include <clingo-lpx.h>
#include <functional>
#include <mutex>
#include <string>

namespace lpxrec {

// Start recording; events go to emit.  Callbacks and models are serialised by the lock.
void start(clingolpx_theory_t *theory, std::function<void(std::string const &)> emit);
bool active();
std::recursive_mutex &lock();
// true literals of the last total assignment a thread checked
std::string last_assignment(unsigned thread);
// shown atoms that are true in it
std::string last_atoms(unsigned thread);

} // namespace lpxrec
