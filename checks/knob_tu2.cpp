#include <parmcb/util.hpp>
void set_from_other_unit(std::size_t n) { parmcb::set_global_tbb_concurrency(n); }
