"""Sets of first characters, seen through is_independent.

first  for every input: if a match starts with the byte NN, the regex is not independent of \\xNN
pair   two regexes with a common first character (by the oracle written here) are not independent,
       asked in both orders"""
import subprocess
import zlib

import gen_class
import sa
from gen_class import D, S, SP, W, c_string, neg
from sa import TU

DOT = neg(S("\n"))
# pattern, first characters of its non-empty matches
COMBINED = [
    (r"a?b", S("ab")), (r"a*b", S("ab")), (r"a+b", S("a")), (r"(?:a|bc)d", S("ab")), (r"(?:a?)(?:b?)c", S("abc")), (r"(a)?(b)?c", S("abc")),
    (r"[a-c]{0,2}x", S(("a", "c"), "x")), (r"(?:a*|b)c", S("abc")), (r"a??b", S("ab")), (r"a?+b", S("ab")), (r"a*+b?c", S("abc")),
    (r"^ab", S("a")), (r"^a?b", S("ab")), (r"(?:a|b|cd)?e", S("abce")), (r"a{0,3}b{2}", S("ab")), (r"a{2,}b", S("a")), (r"\d?\w", W), (r"\s*\d", S(SP, D)),
    (r"[^a]?a", gen_class.ALL), (r"(?:[^a]|b)c", neg(S("a"))), (r"(?:ab|ac)|b?c", S("abc")), (r"(?:(a?)b?)c", S("abc")), (r"((?:a|b)*)c", S("abc")),
    (r"(?:a?b?)?c", S("abc")), (r"(?:a?)*b", S("ab")), (r"(?:(?:a|b?)c)+", S("abc")), (r"a?$", S("a\n")), (r"a|b?|c", S("abc")), (r"\D?\d", gen_class.ALL),
    (r".?\n", gen_class.ALL), (r"(?:a{0,1}){0,1}[xy]", S("axy")), (r"\x41?\o{142}", S("Ab")), (r"(?:a|)b", None), (r"a(?:b|c)", S("a")),
    (r"(?:\.|\+)?\*", S(".+*")), (r"[\d_]*[a-f]", S(D, "_", ("a", "f"))), (r"(a|b)c|d", S("abd")), (r"(?:a|b){2}c", S("ab")), (r"(?:a|b?){1,2}c", S("abc")),
    (r"(?:a?+b?+)c", S("abc")), (r"(?:a??)(b*?)[c-e]", S("ab", ("c", "e"))), (r"[^\d]*[^\w]", neg(D)), (r"\W?[^a-y]", neg(S(("a", "y")))),
    (r"(?:a?)+b", S("ab")), (r"(?:a?){2,}b", S("ab")), (r"(?:a*){2,3}b", S("ab")), (r"(a?){2}b", S("ab")), (r"(?:a?)+?b", S("ab")), (r"(?:a?)++b", S("ab")),
    (r"(?:a?b?){2}c", S("abc")), (r"(?:(a*))+b", S("ab")), (r"(?:a?|b){3}c", S("abc")), (r"(?:a??){1,2}?[bc]", S("abc")), (r"(?:a?){1,}+\d", S("a", D)),
    (r"(?:a?)+[ab]", S("ab")), (r"(?:a?)+?[ab]", S("ab")), (r"(?:a?)++[ab]", S("ab")), (r"(?:a?){1,3}[a-c]", S("abc")), (r"(a*){1,2}?(?:b|a)", S("ab")),
    (r"(?:a?)+(?:b?)+[ab]c", S("ab")), (r"b*(?:a?)+b", S("ab")),
    (r"(?:a?){2}(?:b?){2}c", S("abc")), (r"(?:a{0,2}){2}(?:b|c)", S("abc")),
    (r"\x80?\xff", S(0x80, 0xff)), (r"[^\x80]?x", None), (r"é?a", None), (r"(?:x|\xfe)?\x7f", S("x", 0xfe, 0x7f)),
]
COMBINED = [(p, f) for p, f in COMBINED if f is not None]


def corpus():
    out = []
    for fam, pats in gen_class.SETS.items():
        for p, oracle in pats:
            if fam == "group":
                continue
            out.append((p, oracle[0]))
    out += [(r"a|b", S("ab")), (r"\d|x", S(D, "x")), (r"(?:[a-c]|\d)y", S(("a", "c"), D)), (r"x(\s|\d|_)", S("x"))]
    return out


HEAD = '''#include "sa.hpp"
#include "e_regex.hpp"
#include <array>
#include <utility>
#ifdef EXPOSED
// the derived set itself, when the tree still has it under this name
template<typename R>
constexpr bool derived(int n)
{
    return n >= 0 && n < 256 && e_regex::nodes::extract_admission_set<typename R::ast>::type::can_admit(static_cast<char>(n));
}
template<typename R>
constexpr int last(int n)
{
    while (derived<R>(n + 1)) n++;
    return n;
}
template<typename R, unsigned N>
bool first(unsigned char c)
{
    if constexpr (derived<R>(N) && !derived<R>(int(N) - 1))
    {
        constexpr int end = last<R>(N);
        return c >= N && c <= end;
    }
    else
    {
        return false;
    }
}
template<typename R>
void firsts(unsigned char c)
{
    const bool in = [c]<unsigned... N>(std::integer_sequence<unsigned, N...>) { return (... || first<R, N>(c)); }(std::make_integer_sequence<unsigned, 256> {});
    sa_check("the first character of a match is in the derived set of first characters", in);
}
#else
template<typename R>
void firsts(unsigned char)
{
}
#endif
template<typename R, typename... E>
constexpr bool dependent = (... && (!R::template is_independent<E>() && !E::template is_independent<R>()));
'''
PROBE = '''#include "e_regex.hpp"
static_assert(e_regex::nodes::extract_admission_set<typename e_regex::regex<"a">::ast>::type::can_admit('a'));
static_assert(!e_regex::nodes::extract_admission_set<typename e_regex::regex<"a">::ast>::type::can_admit('b'));
'''


def exposed():
    r = subprocess.run([sa.CLANG] + sa.BASE_FLAGS + ["-fsyntax-only", "-Wno-everything", "-x", "c++", "-"], input=PROBE,
                       capture_output=True, text=True)
    return r.returncode == 0


def sampled(f):
    """Both ends and the middle of every interval of the set."""
    xs, out = sorted(f), []
    for i, x in enumerate(xs):
        if x - 1 not in f or x + 1 not in f:
            out.append(x)
    if len(f) > 64 and len(out) > 4:   # intersections with large sets are expensive for the compiler
        out = out[:2] + out[-2:]
    return out


def function(name, pattern, f):
    return '''extern "C" void sa_entry_%s()
{
    using R = e_regex::regex<"%s">;
    sa_check("a regex is not independent of its first characters", dependent<R, %s>);
    const char* const b = sa_begin();
    const char* const e = sa_end();
    auto m = R::match({b, e});
    if (m.is_accepted() && m.to_view().data() == b && m.to_view().size() > 0)
    {
        const unsigned char c = *b;
        sa_check("a match starts with an expected character", %s);
        firsts<R>(c);
        sa_reach("accepted");
    }
}
''' % (name, c_string(pattern), ", ".join('e_regex::regex<"\\\\x%02x">' % x for x in sampled(f)), gen_class.member(f, "c"))


def pairs(name, a, fa, others, share):
    L = ['extern "C" void sa_entry_%s()\n{\n    using R = e_regex::regex<"%s">;' % (name, c_string(a))]
    for b, fb in others:
        if fa & fb and (len(fa) * len(fb) < 900 or zlib.crc32((b + a).encode("utf-8", "surrogateescape")) % (len(fa) * len(fb)) < 900) \
                and zlib.crc32((a + b).encode("utf-8", "surrogateescape")) % 100 < share:
            L.append('    sa_check("not independent of %s", !R::template is_independent<e_regex::regex<"%s">>() && '
                     '!e_regex::regex<"%s">::template is_independent<R>());' % (c_string(c_string(b)), c_string(b), c_string(b)))
    L.append('    sa_reach("end");\n}\n')
    return "\n".join(L)


def generate(select=None, shards=16, full=False):
    E = []
    allp = corpus() + COMBINED
    for i, (p, f) in enumerate(allp):
        n = "first_%03d" % i
        if select is None or select(n):
            E.append((n, function(n, p, f), p, ["accepted"]))
    some = COMBINED + corpus()[::3 if full else 9]
    for i, (p, f) in enumerate(some):
        n = "pair_%03d" % i
        if select is None or select(n):
            E.append((n, pairs(n, p, f, some, 100 if full else 25), p, ["end"]))
    head = ("#define EXPOSED\n" if exposed() else "") + HEAD
    tus = []
    for s in range(shards):
        part = E[s::shards]
        if part:
            tus.append(TU("first%02d" % s, head + "".join(t for _, t, _, _ in part),
                          {n: {"reach": r, "what": p} for n, _, p, r in part}))
    return tus
