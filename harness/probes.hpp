// Probe leaves: stand-ins for the single-character literals of a pattern ('R', 'C', 'A', ...).
// A probe obeys the interface of every leaf of the library, but what it accepts is described
// by unknown constants (sa_const) or left open (sa_bool), so a proof over the probes is a
// proof for every leaf, every input and every number of repetitions at once.  The trees around
// the probes are the library's own, built from ordinary patterns by its own tree builder.
#ifndef PROBES_HPP_
#define PROBES_HPP_
#include "sa.hpp"

#include "e_regex.hpp"

namespace probe
{
    using P = const char*;

    template<char tag>
    struct impl;

    using full_set = e_regex::admitted_set_complement_t<e_regex::admitted_set<char>>;

    enum : int
    {
        not_called = 0,
        matched    = 1,
        failed     = 2
    };

    // A result with room for the bookkeeping of the probes
    template<typename matcher>
    struct ghost_result
        : public e_regex::match_result_data<e_regex::nodes::group_getter<matcher>::value, char>
    {
            int mode   = 0;
            P   lo     = nullptr;
            P   hi     = nullptr;
            int step   = 1;
            bool bounded = false;
            int calls  = 0;
            int a      = not_called;
            int b      = not_called;
            int c      = not_called;
            int d      = not_called;
            int x      = not_called;
            P   before = nullptr; // position at which the first leaf must be entered

            constexpr auto operator=(bool v) noexcept -> ghost_result&
            {
                this->accepted = v;
                return *this;
            }

            constexpr operator bool() const noexcept
            {
                return this->accepted;
            }
    };

    inline bool is_view(const e_regex::literal_string_view<>& g, P b, P e)
    {
        return g.begin_ == b && g.end_ == e;
    }
} // namespace probe

#define PROBE_LEAF(TAG, MIN, MAX, SET)                                            \
    template<>                                                                    \
    struct e_regex::terminals::exact_matcher<e_regex::pack_string<TAG>>           \
    {                                                                             \
            static constexpr auto expression = e_regex::pack_string<TAG>::string; \
            static constexpr auto meta       = e_regex::meta<SET> {               \
                      .policy_            = e_regex::policy::EXACT,               \
                      .minimum_match_size = MIN,                                  \
                      .maximum_match_size = MAX,                                  \
            };                                                                    \
            template<typename... injected>                                        \
            using optimize = e_regex::terminals::terminal<e_regex::pack_string<TAG>>; \
            template<typename... injected>                                        \
            static constexpr __attribute__((always_inline)) auto                  \
                match(auto& result) -> auto&                                      \
            {                                                                     \
                probe::impl<TAG>::run(result);                                    \
                return result;                                                    \
            }                                                                     \
    };
#endif
