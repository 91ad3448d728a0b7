#ifndef TOKEN_PROBES_HPP_
#define TOKEN_PROBES_HPP_
#include "probes.hpp"

#include "tokenization/tokenizer.hpp"

// Tokens A, B, D and separators S, U.  Each matches at most at the positions b (the start of the
// input), sa_const(30) and sa_const(31); where it ends is a constant per leaf and position, and
// a constant before that position or beyond the input means that it does not match there.
namespace probe
{
    template<int k>
    struct token_leaf
    {
            static inline void run(auto& d)
            {
                const P q = d.actual_iterator_end;
                if (q == nullptr) // nothing is left: at most an empty match
                {
                    if (!sa_bool()) d.accepted = false;
                    return;
                }
                sa_check("a token or separator is looked for inside the input", q >= sa_begin() && q <= sa_end());
                if (q == sa_begin() && sa_const(k) >= q && sa_const(k) <= sa_end()) d.actual_iterator_end = sa_const(k);
                else if (q == sa_const(30) && q != sa_begin() && sa_const(k + 1) >= q && sa_const(k + 1) <= sa_end()) d.actual_iterator_end = sa_const(k + 1);
                else if (q == sa_const(31) && q != sa_begin() && sa_const(k + 2) >= q && sa_const(k + 2) <= sa_end()) d.actual_iterator_end = sa_const(k + 2);
                else d.accepted = false;
            }
    };
    // X: a token, Y: a separator, both matching what they like but at least one character
    template<int k>
    struct free_leaf
    {
            static inline void run(auto& d)
            {
                const P q = d.actual_iterator_end;
                if (q == nullptr) // nothing is left: at most an empty match
                {
                    if (!sa_bool()) d.accepted = false;
                    return;
                }
                sa_check("a token or separator is looked for inside the input", q >= sa_begin() && q <= sa_end());
                const P n = sa_ptr();
                if (sa_bool())
                {
                    sa_assume(n > q && n <= sa_end());
                    d.actual_iterator_end = n;
                }
                else
                    d.accepted = false;
            }
    };
    // M: a token, N: a separator, that note where they matched; they are looked for where the
    // other ended, and nowhere else
    static P sa_ghost_tokenized = nullptr;
    static P sa_ghost_separated = nullptr;
    template<bool is_token>
    struct chain_leaf
    {
            static inline void run(auto& d)
            {
                const P q = d.actual_iterator_end;
                if (q == nullptr)
                {
                    d.accepted = false;
                    return;
                }
                sa_check("a token is looked for where the separator before it ends, and a separator where the token ends",
                         q == (is_token ? sa_ghost_separated : sa_ghost_tokenized));
                const P n = sa_ptr();
                if (sa_bool())
                {
                    sa_assume(n > q && n <= sa_end());
                    d.actual_iterator_end = n;
                    if (is_token) sa_ghost_tokenized = n;
                    else sa_ghost_separated = n;
                }
                else
                    d.accepted = false;
            }
    };
    // G, H: tokens that note how far they match
    static P sa_ghost_first = nullptr;
    static P sa_ghost_second = nullptr;
    template<bool is_first>
    struct rival_leaf
    {
            static inline void run(auto& d)
            {
                const P q = d.actual_iterator_end;
                P n       = q;
                if (q != nullptr && sa_bool())
                {
                    n = sa_ptr();
                    sa_assume(n >= q && n <= sa_end());
                    d.actual_iterator_end = n;
                }
                else
                    d.accepted = false;
                if (is_first) sa_ghost_first = n;
                else sa_ghost_second = n;
            }
    };
    template<> struct impl<'G'> : public rival_leaf<true> {};
    template<> struct impl<'H'> : public rival_leaf<false> {};
    template<> struct impl<'M'> : public chain_leaf<true> {};
    template<> struct impl<'N'> : public chain_leaf<false> {};
    template<> struct impl<'A'> : public token_leaf<1> {};
    template<> struct impl<'B'> : public token_leaf<4> {};
    template<> struct impl<'D'> : public token_leaf<7> {};
    template<> struct impl<'S'> : public token_leaf<10> {};
    template<> struct impl<'U'> : public token_leaf<13> {};
    template<> struct impl<'X'> : public free_leaf<0> {};
    template<> struct impl<'Y'> : public free_leaf<1> {};

    enum class kind
    {
        FIRST  = 1,
        SECOND = 2,
        THIRD  = 3
    };
} // namespace probe
PROBE_LEAF('A', 0, 9, probe::full_set)
PROBE_LEAF('B', 0, 9, probe::full_set)
PROBE_LEAF('D', 0, 9, probe::full_set)
PROBE_LEAF('S', 0, 9, probe::full_set)
PROBE_LEAF('U', 0, 9, probe::full_set)
PROBE_LEAF('M', 1, 9, probe::full_set)
PROBE_LEAF('N', 1, 9, probe::full_set)
PROBE_LEAF('G', 1, 9, probe::full_set)
PROBE_LEAF('H', 1, 9, probe::full_set)
PROBE_LEAF('X', 1, 9, probe::full_set)
PROBE_LEAF('Y', 1, 9, probe::full_set)

using e_regex::separator;
using e_regex::token;
using probe::kind;
#define START                                                                                                   \
    const P b = sa_begin(), e = sa_end(), p = sa_const(30), q = sa_const(31);                                   \
    const P A0 = sa_const(1), A1 = sa_const(2), A2 = sa_const(3), B0 = sa_const(4), B1 = sa_const(5), B2 = sa_const(6);      \
    const P D0 = sa_const(7), D1 = sa_const(8), D2 = sa_const(9), S0 = sa_const(10), S1 = sa_const(11), S2 = sa_const(12);   \
    const P U0 = sa_const(13), U1 = sa_const(14), U2 = sa_const(15);                                            \
    sa_assume(b < e && p > b && q > p);                                                                         \
    (void)A0; (void)A1; (void)A2; (void)B0; (void)B1; (void)B2; (void)D0; (void)D1; (void)D2;                   \
    (void)S0; (void)S1; (void)S2; (void)U0; (void)U1; (void)U2; (void)q;
#define NOT_AT_START(x) sa_assume(x > e);
#define TOKEN(LABEL, IT, B, E, TYPE)                                                                            \
    {                                                                                                           \
        const auto t_ = *(IT);                                                                                  \
        sa_check("a token is found where one matches", static_cast<bool>(IT));                                  \
        sa_check(LABEL, t_.value.begin() == (B) && t_.value.end() == (E));                                      \
        sa_check("a token has the type it was declared with", t_.type == (TYPE));                               \
    }
#define OVER(LABEL, IT) sa_check(LABEL, !static_cast<bool>(IT));
#endif
