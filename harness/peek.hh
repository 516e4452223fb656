// Optional view on order literals and bounds. It is only used to sharpen the
// monitors of c_mock; if it does not compile against the tree under test, the
// build falls back to peek_none.cc and the monitors treat order literals as
// uninterpreted.
#pragma once
namespace V {
bool peek_available();
// literal for var <= value in the given thread (0 if there is none)
int peek_literal(void *propagator, unsigned thread, unsigned var, int value);
void peek_bounds(void *propagator, unsigned thread, unsigned var, int &lower, int &upper);
unsigned peek_vars(void *propagator, unsigned thread);
} // namespace V
