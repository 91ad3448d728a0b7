#ifndef SEQUENCE_PROBES_HPP_
#define SEQUENCE_PROBES_HPP_
#include "probes.hpp"

// Leaves A B D X: each may match or fail wherever it is tried, and remembers what happened.
// A matching leaf ends at a constant of its own (any position not behind it).
namespace probe
{
    // What the leaves remember.  It is kept outside the result, so that it survives a restored
    // copy of the result.
    struct seq_ghost
    {
            int A = not_called, B = not_called, D = not_called, X = not_called, Y = not_called;
            int M = not_called, N = not_called;
            P   atA = nullptr, atB = nullptr, atD = nullptr, atX = nullptr, atY = nullptr;
            P   iterB = nullptr, iterM = nullptr, iterE = nullptr; // last complete repetition
            int calls = 0, callsD = 0;
    };
    template<typename matcher>
    struct seq_result
        : public e_regex::match_result_data<e_regex::nodes::group_getter<matcher>::value, char>
    {
            seq_ghost* g = nullptr;

            constexpr auto operator=(bool v) noexcept -> seq_result&
            {
                this->accepted = v;
                return *this;
            }

            constexpr operator bool() const noexcept
            {
                return this->accepted;
            }
    };

    inline void entered(auto& d)
    {
        sa_check("a leaf is entered with a result not yet rejected", d.accepted);
        sa_check("a leaf is entered inside the input",
                 d.actual_iterator_end >= sa_begin() && d.actual_iterator_end <= sa_end());
    }

#define SEQ_LEAF(T, TAG, K)                                                     \
    inline P end##T()                                                           \
    {                                                                           \
        return sa_const(K);                                                     \
    }                                                                           \
    template<>                                                                  \
    struct impl<TAG>                                                            \
    {                                                                           \
            static inline void run(auto& d)                                     \
            {                                                                   \
                entered(d);                                                     \
                bool ok = sa_bool() && end##T() >= d.actual_iterator_end;       \
                if (d.g->T != not_called && d.g->at##T == d.actual_iterator_end)      \
                    ok = d.g->T == matched; /* the same answer at every visit */   \
                d.g->at##T = d.actual_iterator_end;                                \
                if (ok)                                                         \
                {                                                               \
                    sa_assume(end##T() >= sa_begin() && end##T() <= sa_end());  \
                    d.g->T                   = matched;                            \
                    d.actual_iterator_end = end##T();                           \
                }                                                               \
                else                                                            \
                {                                                               \
                    d.g->T        = failed;                                        \
                    d.accepted = false;                                         \
                }                                                               \
            }                                                                   \
    };
    SEQ_LEAF(A, 'A', 10)
    SEQ_LEAF(B, 'B', 11)
    SEQ_LEAF(D, 'D', 12)
    SEQ_LEAF(X, 'X', 13)

    // always matches, ends at a constant
    inline P endY()
    {
        return sa_const(14);
    }
    template<>
    struct impl<'Y'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                d.g->atY = d.actual_iterator_end;
                d.g->Y   = matched;
                sa_assume(endY() >= d.actual_iterator_end && endY() <= sa_end());
                d.actual_iterator_end = endY();
            }
    };
    // never matches
    template<>
    struct impl<'Z'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                d.accepted = false;
            }
    };
    // M, N: one character, as the members of a bracket
#define ONE_LEAF(T, TAG)                                                        \
    template<>                                                                  \
    struct impl<TAG>                                                            \
    {                                                                           \
            static inline void run(auto& d)                                     \
            {                                                                   \
                entered(d);                                                     \
                sa_check("the members of a bracket look at the same character", \
                         d.actual_iterator_end == sa_const(3));                 \
                if (d.actual_iterator_end < sa_end() && sa_bool())              \
                {                                                               \
                    d.g->T = matched;                                              \
                    d.actual_iterator_end++;                                    \
                }                                                               \
                else                                                            \
                {                                                               \
                    d.g->T        = failed;                                        \
                    d.accepted = false;                                         \
                }                                                               \
            }                                                                   \
    };
    ONE_LEAF(M, 'M')
    ONE_LEAF(N, 'N')
    // R: one character at every position before a constant (the same answer at every visit)
    template<>
    struct impl<'R'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                sa_assume(sa_const(5) <= sa_end());
                if (d.actual_iterator_end < sa_const(5))
                {
                    d.actual_iterator_end++;
                }
                else
                {
                    d.accepted = false;
                }
            }
    };
    // P then Q: one repetition of a two-part operand inside a loop; each part consumes something
    template<>
    struct impl<'P'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                d.g->atA = d.actual_iterator_end;
                if (sa_bool())
                {
                    const P n = sa_ptr();
                    sa_assume(n > d.actual_iterator_end && n <= sa_end());
                    d.actual_iterator_end = n;
                }
                else
                {
                    d.accepted = false;
                }
            }
    };
    template<>
    struct impl<'Q'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                d.g->atB = d.actual_iterator_end;
                if (sa_bool())
                {
                    const P n = sa_ptr();
                    sa_assume(n > d.actual_iterator_end && n <= sa_end());
                    d.g->iterB = d.g->atA;
                    d.g->iterM = d.g->atB;
                    d.g->iterE = n;
                    d.g->calls = 1;
                    d.actual_iterator_end = n;
                }
                else
                {
                    d.accepted = false;
                }
            }
    };
    // E: always matches the empty string; counts how often it is tried
    template<>
    struct impl<'E'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                sa_check("an operand that consumes nothing is not repeated without end", d.g->calls < 24);
                d.g->calls++;
            }
    };
    // V: matches what it likes, perhaps nothing; with 'Y' after it, each repetition after a
    // first must make progress
    template<>
    struct impl<'V'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                if (d.g->callsD)
                {
                    sa_check("repetitions without progress end", d.actual_iterator_end > d.g->iterB);
                }
                d.g->callsD = 1;
                d.g->iterB = d.actual_iterator_end;
                if (sa_bool())
                {
                    const P n = sa_ptr();
                    sa_assume(n >= d.actual_iterator_end && n <= sa_end());
                    d.actual_iterator_end = n;
                }
                else
                {
                    d.accepted = false;
                }
            }
    };

    // unknown previous contents of the groups
    inline void dirty_groups(auto& d)
    {
        if constexpr (std::remove_reference_t<decltype(d.match_groups)>{}.size() > 0)
            d.match_groups[0] = e_regex::literal_string_view<> {sa_const(20), sa_const(21)};
        if constexpr (std::remove_reference_t<decltype(d.match_groups)>{}.size() > 1)
            d.match_groups[1] = e_regex::literal_string_view<> {sa_const(22), sa_const(23)};
        if constexpr (std::remove_reference_t<decltype(d.match_groups)>{}.size() > 2)
            d.match_groups[2] = e_regex::literal_string_view<> {sa_const(24), sa_const(25)};
        if constexpr (std::remove_reference_t<decltype(d.match_groups)>{}.size() > 3)
            d.match_groups[3] = e_regex::literal_string_view<> {sa_const(26), sa_const(27)};
    }
    template<int n>
    inline bool untouched(auto& d)
    {
        return d.match_groups[n - 1].begin_ == sa_const(18 + 2 * n)
               && d.match_groups[n - 1].end_ == sa_const(19 + 2 * n);
    }
    template<int n>
    inline bool captured(auto& d, P b, P e)
    {
        return is_view(d.match_groups[n - 1], b, e);
    }
    inline void restored(auto& d, P s)
    {
        sa_check("a rejected attempt restores the position", d.actual_iterator_end == s);
        constexpr auto n = std::remove_reference_t<decltype(d.match_groups)>{}.size();
        if constexpr (n > 0) sa_check("a rejected attempt restores the groups", untouched<1>(d));
        if constexpr (n > 1) sa_check("a rejected attempt restores the groups", untouched<2>(d));
        if constexpr (n > 2) sa_check("a rejected attempt restores the groups", untouched<3>(d));
        if constexpr (n > 3) sa_check("a rejected attempt restores the groups", untouched<4>(d));
    }
} // namespace probe

PROBE_LEAF('A', 1, 4, probe::full_set)
PROBE_LEAF('B', 1, 4, probe::full_set)
PROBE_LEAF('D', 1, 4, probe::full_set)
PROBE_LEAF('X', 1, 4, probe::full_set)
PROBE_LEAF('Y', 1, 4, probe::full_set)
PROBE_LEAF('Z', 1, 1, probe::full_set)
PROBE_LEAF('M', 1, 1, probe::full_set)
PROBE_LEAF('N', 1, 1, probe::full_set)
PROBE_LEAF('P', 1, 9, probe::full_set)
PROBE_LEAF('Q', 1, 9, probe::full_set)
PROBE_LEAF('R', 1, 1, probe::full_set)
PROBE_LEAF('E', 0, 0, probe::full_set)
PROBE_LEAF('V', 0, 9, probe::full_set)

// Body of an entry: runs the tree of PATTERN from an arbitrary position s with arbitrary groups
#define RUN(PATTERN) START(PATTERN) GO
// bol: whether the start position is the start of a line
#define RUN_BOL(PATTERN)                                                        \
    START(PATTERN)                                                              \
    const P before = sa_pivot();                                                \
    sa_assume(before + 1 == s);                                                 \
    const bool bol = s == b || *before == '\n';                                 \
    GO
// eol: whether the position endA() is the end of a line, last: the end of the input
#define RUN_EOL(PATTERN, AT)                                                    \
    START(PATTERN)                                                              \
    const P there = sa_pivot();                                                 \
    sa_assume(there == AT && there >= b && there <= e);                         \
    const bool last = there == e, eol = last || *there == '\n';
#define START(PATTERN)                                                          \
    using T = typename e_regex::regex<PATTERN>::ast;                            \
    probe::seq_ghost ghost_;                                                    \
    probe::seq_result<T> d;                                                     \
    d.g = &ghost_;                                                              \
    const P b = sa_begin(), e = sa_end(), s = sa_const(3);                      \
    sa_assume(s >= b && s <= e);                                                \
    d.query                 = {b, e};                                           \
    d.actual_iterator_start = s;                                                \
    d.actual_iterator_end   = s;                                                \
    dirty_groups(d);
#define GO                                                                      \
    T::match(d);                                                                \
    const P pos = d.actual_iterator_end;
#define OK(x)  (d.g->x == matched)
#define NO(x)  (d.g->x == failed)
#define NOT(x) (d.g->x == not_called)
#endif
