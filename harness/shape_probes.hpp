#ifndef SHAPE_PROBES_HPP_
#define SHAPE_PROBES_HPP_
#include "probes.hpp"

// Leaves a..p: leaf k ends at the constant 10+k, or fails where that constant lies behind it or
// beyond the input.  The constant 60+k is where it must be entered (beyond the input: not checked).
namespace probe
{
    template<int k>
    struct shape_leaf
    {
            static inline void run(auto& d)
            {
                if (sa_const(60 + k) <= sa_end())
                    sa_check("an item starts where the item before it ended", d.actual_iterator_end == sa_const(60 + k));
                if (sa_const(10 + k) >= d.actual_iterator_end && sa_const(10 + k) <= sa_end())
                    d.actual_iterator_end = sa_const(10 + k);
                else
                    d.accepted = false;
            }
    };
} // namespace probe
#define SHAPE_LEAF(TAG)                                                                        \
    template<>                                                                                 \
    struct probe::impl<TAG> : public probe::shape_leaf<TAG - 'a'>                              \
    {};                                                                                        \
    PROBE_LEAF(TAG, 0, 9, probe::full_set)
SHAPE_LEAF('a')
SHAPE_LEAF('b')
SHAPE_LEAF('c')
SHAPE_LEAF('d')
SHAPE_LEAF('e')
SHAPE_LEAF('f')
SHAPE_LEAF('g')
SHAPE_LEAF('h')
SHAPE_LEAF('i')
SHAPE_LEAF('j')
SHAPE_LEAF('k')
SHAPE_LEAF('l')
#define VIEW(LABEL, V, B, E)                                                    \
    {                                                                           \
        const std::string_view v_ = V;                                          \
        sa_check(LABEL, v_.data() == (B) && v_.data() + v_.size() == (E));      \
    }
#endif
