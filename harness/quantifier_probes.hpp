#ifndef QUANTIFIER_PROBES_HPP_
#define QUANTIFIER_PROBES_HPP_
#include "probes.hpp"

namespace probe
{
    // R matches one character at every position before F and nowhere else
    inline P F()
    {
        return sa_const(0);
    }
    // G0: where the continuation is first accepted, in the order the mode must try positions
    inline P G0()
    {
        return sa_const(1);
    }
    // G2: where the continuation ends
    inline P G2()
    {
        return sa_const(2);
    }

    inline void entered(auto& d)
    {
        sa_check("a leaf is entered with a result not yet rejected", d.accepted);
        sa_check("a leaf is entered inside the input",
                 d.actual_iterator_end >= sa_begin() && d.actual_iterator_end <= sa_end());
    }

    template<>
    struct impl<'R'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                if (d.actual_iterator_end < F())
                {
                    d.actual_iterator_end++;
                }
                else
                {
                    d.accepted = false;
                }
            }
    };

    template<>
    struct impl<'Z'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                d.accepted = false;
            }
    };

    // A: one character, always (used where room for it is assumed)
    template<>
    struct impl<'A'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                sa_assume(d.actual_iterator_end < sa_end());
                d.actual_iterator_end++;
            }
    };

    // The continuation: what follows the quantified operand
    template<>
    struct impl<'C'>
    {
            static inline void run(auto& d)
            {
                entered(d);
                const P q = d.actual_iterator_end;
                sa_check("what follows is not tried with too few repetitions", q >= d.lo);
                if (d.mode != 3)
                {
                    sa_check("what follows is not tried past the last repetition", q <= F());
                }
                if (d.bounded)
                {
                    sa_check("what follows is not tried with too many repetitions", q <= d.hi);
                }
                bool ok;
                if (d.mode == 0)// greedy: the last accepted position wins
                {
                    ok = q == G0() ? true : q > G0() ? false : sa_bool() && G2() >= q;
                }
                else if (d.mode == 1)// lazy: the first accepted position wins
                {
                    ok = q == G0() ? true : q < G0() ? false : sa_bool() && G2() >= q;
                }
                else if (d.mode == 3)// it accepts at one position only
                {
                    ok = q == G0();
                }
                else// possessive: only the longest run counts
                {
                    if (d.step == 1)
                    {
                        sa_check("a possessive quantifier never gives back",
                                 d.bounded && q == d.hi ? true : q == F());
                    }
                    ok = q == G0();
                }
                if (ok)
                {
                    sa_check("the preferred number of repetitions is taken", q == G0());
                    d.actual_iterator_end = G2();
                }
                else
                {
                    d.accepted = false;
                }
            }
    };
} // namespace probe
// the characters a leaf may start with: any, unless a translation unit says otherwise
#ifndef SET_R
#define SET_R probe::full_set
#define SET_C probe::full_set
#define SET_Z probe::full_set
#define MIN_C 0
#endif
PROBE_LEAF('R', 1, 1, SET_R)
PROBE_LEAF('Z', 1, 1, SET_Z)
PROBE_LEAF('A', 1, 1, probe::full_set)
PROBE_LEAF('C', MIN_C, 7, SET_C)
#endif
