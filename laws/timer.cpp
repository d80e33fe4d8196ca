#include "laws.hpp"
#include "Simu/physics/Profiler.hpp"

namespace laws
{
// ---- a timer that is moved hands its measure over, and only once
inline void law_moved_timer__keeps(TimeEntry& e, bool partial)
{
    ScopedTimer a{e, partial};
    ScopedTimer b{std::move(a)};
    holds(b.entry_ == &e);
    holds(a.entry_ == nullptr);
    holds(b.partial_ == partial);
}
} // namespace laws
