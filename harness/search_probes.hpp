#ifndef SEARCH_PROBES_HPP_
#define SEARCH_PROBES_HPP_
#include "probes.hpp"

namespace probe
{
    // A matches at sa_const(1), at sa_const(3) and at sa_const(5), up to the constant after each
    inline void attempt(auto& d)
    {
        sa_check("every attempt starts with a result not yet rejected", d.accepted);
        sa_check("every attempt starts inside the input",
                 d.actual_iterator_end >= sa_begin() && d.actual_iterator_end <= sa_end());
        sa_check("every attempt starts at the position the match would start at",
                 d.actual_iterator_end == d.actual_iterator_start);
        constexpr auto n = std::remove_reference_t<decltype(d.match_groups)>{}.size();
        [&]<std::size_t... i>(std::index_sequence<i...>) {
            (sa_check("every attempt starts with empty groups",
                      d.match_groups[i].begin_ == nullptr && d.match_groups[i].end_ == nullptr), ...);
        }(std::make_index_sequence<n> {});
    }

    template<>
    struct impl<'A'>
    {
            static inline void run(auto& d)
            {
                attempt(d);
                const P q = d.actual_iterator_end;
                if (q == sa_const(1)) d.actual_iterator_end = sa_const(2);
                else if (q == sa_const(3)) d.actual_iterator_end = sa_const(4);
                else if (q == sa_const(5)) d.actual_iterator_end = sa_const(6);
                else d.accepted = false;
            }
    };
    template<>
    struct impl<'B'>
    {
            static inline void run(auto& d)
            {
                attempt(d);
                if (d.actual_iterator_end == sa_const(7)) d.actual_iterator_end = sa_const(8);
                else d.accepted = false;
            }
    };
    template<>
    struct impl<'Z'>
    {
            static inline void run(auto& d)
            {
                attempt(d);
                d.accepted = false;
            }
    };
} // namespace probe
PROBE_LEAF('A', 0, 9, probe::full_set)
PROBE_LEAF('B', 0, 9, probe::full_set)
PROBE_LEAF('Z', 0, 9, probe::full_set)

// START0 .. START3: A matches nowhere, or at one, two or three places that iteration visits;
// B nowhere
#define START(PATTERN)                                                          \
    using R = e_regex::regex<PATTERN>;                                          \
    const P b = sa_begin(), e = sa_end();                                       \
    const P g = sa_const(1), h = sa_const(2), g2 = sa_const(3), h2 = sa_const(4); \
    const P g3 = sa_const(5), h3 = sa_const(6), k = sa_const(7), l = sa_const(8);
#define NO_B sa_assume(k > e);
#define START0(PATTERN) START(PATTERN) sa_assume(g > e && g2 > e && g3 > e);
#define START1(PATTERN) START(PATTERN) sa_assume(g >= b && h >= g && h <= e && g2 > e && g3 > e);
#define START2(PATTERN)                                                         \
    START(PATTERN)                                                              \
    sa_assume(g >= b && h >= g && g2 >= h && g2 > g && h2 >= g2 && h2 <= e && g3 > e);
#define START3(PATTERN)                                                         \
    START(PATTERN)                                                              \
    sa_assume(g >= b && h >= g && g2 >= h && g2 > g && h2 >= g2 && g3 >= h2 && g3 > g2 && h3 >= g3 && h3 <= e);
#define VIEW(LABEL, V, B, E)                                                    \
    {                                                                           \
        const std::string_view v_ = V;                                          \
        sa_check(LABEL, v_.data() == (B) && v_.data() + v_.size() == (E));      \
    }
#endif
