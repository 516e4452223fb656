#include "peek.hh"
#include <algorithm>
#include <atomic>
#include <forward_list>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <clingo.hh>
#define private public
#include <clingcon/propagator.hh>
#undef private
namespace V {
static Clingcon::Solver &solver(void *p, unsigned thread) { return static_cast<Clingcon::Propagator *>(p)->solvers_[thread]; }
bool peek_available() { return true; }
int peek_literal(void *p, unsigned thread, unsigned var, int value) {
    auto &vs = solver(p, thread).var_state(var);
    if (value < vs.min_bound() || value >= vs.max_bound()) { return 0; }
    auto lit = vs.get_literal(value);
    return lit ? *lit : 0;
}
void peek_bounds(void *p, unsigned thread, unsigned var, int &lower, int &upper) {
    auto &vs = solver(p, thread).var_state(var);
    lower = vs.lower_bound();
    upper = vs.upper_bound();
}
unsigned peek_vars(void *p, unsigned thread) { return static_cast<unsigned>(solver(p, thread).var2vs_.size()); }
} // namespace V
