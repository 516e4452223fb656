#include "peek.hh"
namespace V {
bool peek_available() { return false; }
int peek_literal(void *, unsigned, unsigned, int) { return 0; }
void peek_bounds(void *, unsigned, unsigned, int &lower, int &upper) { lower = upper = 0; }
unsigned peek_vars(void *, unsigned) { return 0; }
} // namespace V
