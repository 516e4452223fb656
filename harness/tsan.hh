// A replacement for the runtime of -fsanitize=thread: the code under test is
// compiled with its instrumentation, but every memory access is reported to
// the monitor below instead of the sanitizer's runtime.
#pragma once
#include <cstddef>
#include <string>
namespace V::race {
extern int thread;      // executing solver thread (-1 if accesses are not monitored)
extern bool enabled;     // whether memory accesses are recorded
extern bool locked;     // whether the model lock is held
extern void (*on_atomic)();
void reset();
std::string found();    // description of the first race (empty if there is none)
unsigned long accesses();
unsigned long shared_cells(); // cells accessed by several threads
} // namespace V::race
