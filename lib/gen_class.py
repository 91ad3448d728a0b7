"""Character classes, escapes, brackets and literals: what each accepts, byte by byte.

For every pattern the oracle is a list of byte sets, one per consumed character, written down
here from the documentation.  Two obligations families per pattern, over the public interface:
  whole  for every input of exactly n bytes: accepted if and only if every byte is in its set
  any    for every input: a match has exactly n bytes, and they are in their sets
         and an input shorter than n is rejected"""
from sa import TU

ALL = frozenset(range(256))


def S(*xs):
    out = set()
    for x in xs:
        if isinstance(x, str):
            out |= {ord(c) for c in x}
        elif isinstance(x, tuple):
            out |= set(range(ord(x[0]) if isinstance(x[0], str) else x[0], (ord(x[1]) if isinstance(x[1], str) else x[1]) + 1))
        elif isinstance(x, int):
            out.add(x)
        else:
            out |= set(x)
    return frozenset(out)


D = S(("0", "9"))
W = S(("a", "z"), ("A", "Z"), D, "_")
SP = S("\t\n\f\r ")


def neg(s):
    return ALL - s


def lit(text):
    return [S(c) for c in text]


# pattern (as written by a user), oracle
CLASSES = [
    (r"\d", [D]), (r"\D", [neg(D)]), (r"\w", [W]), (r"\W", [neg(W)]), (r"\s", [SP]), (r"\S", [neg(SP)]),
    (r".", [neg(S("\n"))]), (r"\N", [neg(S("\n"))]),
]
ESCAPES = [
    (r"\a", [S(7)]), (r"\e", [S(0x1b)]), (r"\f", [S("\f")]), (r"\r", [S("\r")]), (r"\t", [S("\t")]), (r"\n", [S("\n")]),
    (r"\.", lit(".")), (r"\+", lit("+")), (r"\*", lit("*")), (r"\?", lit("?")), (r"\(", lit("(")), (r"\)", lit(")")),
    (r"\[", lit("[")), (r"\]", lit("]")), (r"\{", lit("{")), (r"\}", lit("}")), (r"\|", lit("|")), (r"\^", lit("^")),
    (r"\$", lit("$")), (r"\\", lit("\\")), (r"\-", lit("-")), (r"\/", lit("/")), (r"\:", lit(":")),
]
HEX = [
    (r"\x41", [S(0x41)]), (r"\x0a", [S(10)]), (r"\xfF", [S(0xff)]), (r"\x9", [S(9)]), (r"\xb", [S(11)]), (r"\xC", [S(12)]),
    (r"\x00", [S(0)]), (r"\x{41}", [S(0x41)]), (r"\x{4a4B}", [S(0x4a), S(0x4b)]), (r"\x{a0bC9F}", [S(0xa0), S(0xbc), S(0x9f)]),
    (r"\x{DEadbeEF}", [S(0xde), S(0xad), S(0xbe), S(0xef)]), (r"\x{7}", [S(7)]), (r"\x80", [S(0x80)]), (r"\x7f", [S(0x7f)]),
    (r"\x41B", lit("AB")), (r"\x4g", [S(4), S("g")]), (r"a\x30c", lit("a0c")),
]
OCTAL = [
    (r"\o{141}", lit("a")), (r"\o{141142}", lit("ab")), (r"\o{000}", [S(0)]), (r"\o{377}", [S(0xff)]), (r"\o{177}", [S(0x7f)]),
    (r"\o101", lit("A")), (r"\o071", lit("9")), (r"\o207", [S(0o207)]), (r"\o1417", lit("a7")), (r"x\o{060}y", lit("x0y")),
    (r"\101", lit("A")), (r"\o{123124125}", lit("STU")), (r"\o376", [S(0o376)]),
]
BRACKETS = [
    (r"[abc]", [S("abc")]), (r"[a-z]", [S(("a", "z"))]), (r"[a-zA-Z]", [S(("a", "z"), ("A", "Z"))]),
    (r"[a-c_x-z0]", [S(("a", "c"), "_", ("x", "z"), "0")]), (r"[a-a]", [S("a")]), (r"[a]", [S("a")]), (r"[_0-9]", [S("_", D)]),
    (r"[\d]", [D]), (r"[\da-f]", [S(D, ("a", "f"))]), (r"[a\s]", [S("a", SP)]), (r"[\w.]", [S(W, ".")]), (r"[\.\-]", [S(".-")]),
    (r"[.]", [S(".")]), (r"[+*?]", [S("+*?")]), (r"[a-z-]", [S(("a", "z"), "-")]), (r"[\]]", [S("]")]), (r"[\n\t]", [S("\n\t")]),
    (r"[!-/]", [S(("!", "/"))]), (r"[ -~]", [S((" ", "~"))]), (r"[%+.]", [S("%+.")]), (r"[a^]", [S("a^")]), (r"[$]", [S("$")]),
    (r"[^a]", [neg(S("a"))]), (r"[^abc]", [neg(S("abc"))]), (r"[^a-z]", [neg(S(("a", "z")))]), (r"[^a-z0-9_]", [neg(S(("a", "z"), D, "_"))]),
    (r"[^\d]", [neg(D)]), (r"[^\s]", [neg(SP)]), (r"[^\w.]", [neg(S(W, "."))]), (r"[^\n]", [neg(S("\n"))]), (r"[^^]", [neg(S("^"))]),
    (r"[^\]]", [neg(S("]"))]), (r"[\D]", [neg(D)]), (r"[\W_]", [S(neg(W), "_")]), (r"[\S]", [neg(SP)]), (r"[^\D]", [D]), (r"[^\W]", [W]),
    (r"[^\S]", [SP]), (r"[^\s\d]", [neg(S(SP, D))]), (r"[\s\S]", [ALL]), (r"[a-f0-9]", [S(("a", "f"), D)]), (r"[^a-f-]", [neg(S(("a", "f"), "-"))]),
]
LITERALS = [
    (r"a", lit("a")), (r"ab", lit("ab")), (r"abc", lit("abc")), (r"abcd", lit("abcd")), (r"a b", lit("a b")), (r"a1_", lit("a1_")),
    (r"-", lit("-")), (r"a:b", lit("a:b")), (r"=,;", lit("=,;")), (r"é", [S(0xc3), S(0xa9)]), (r"\ta", lit("\ta")), (r"]", lit("]")),
    (r"}", lit("}")), (r"a]", lit("a]")), (r"a\\b", lit("a\\b")), (r"\\\\", lit("\\\\")), (r"\\\.", lit("\\.")), (r"(\\)\*", lit("\\*")),
    (r"\x{5c2a}", lit("\\*")), (r"\x5c\x2bx", lit("\\+x")), (r"\x28\x3F\x29", lit("(?)")), (r"\x{5b5d7b7d}", lit("[]{}")), (r"\x{7c5e24}", lit("|^$")),
    (r"\o{050051}\o{174}", lit("()|")), (r"\x2E\x{2a}", lit(".*")), (r"\$\^\|", lit("$^|")), (r"\{\}\[", lit("{}[")), (r"\]\(\)", lit("]()")), (r"\?\+\*\.", lit("?+*.")),
    (r"a\+b\?", lit("a+b?")), (r"1\.5", lit("1.5")), (r"\\d", lit("\\d")), (r"\\x41", lit("\\x41")), (r"\x41\x42\x{43}D", lit("ABCD")),
]
SEQUENCES = [
    (r"\d\d", [D, D]), (r"\d-\d", [D, S("-"), D]), (r"\w\s", [W, SP]), (r"[ab][^cd]", [S("ab"), neg(S("cd"))]), (r"..", [neg(S("\n"))] * 2),
    (r"a.c", [S("a"), neg(S("\n")), S("c")]), (r"\x41\d", [S("A"), D]), (r"\D\W\S", [neg(D), neg(W), neg(SP)]), (r"(\d)([a-f])", [D, S(("a", "f"))]),
    (r"(?:[a-c])(\W)x", [S(("a", "c")), neg(W), S("x")]), (r"[^a-z](?:[a-z])", [neg(S(("a", "z"))), S(("a", "z"))]), (r"[\d_](\.)\n", [S(D, "_"), S("."), S("\n")]),
]
GROUPS = [
    # alternatives of single characters
    (r"a|b", [S("ab")]), (r"\d|x", [S(D, "x")]), (r"(?:[a-c]|\d)y", [S(("a", "c"), D), S("y")]), (r"(a|[^a-y])|\n", [S("a", neg(S(("a", "y"))))]),
    (r"x(\s|\d|_)", [S("x"), S(SP, D, "_")]),
]


def octets(*xs):
    return [S(x) for x in xs]


# every digit in every position
def chunks(xs, n=3):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


for x in chunks(["01", "23", "45", "67", "89", "AB", "CD", "EF", "ab", "cd", "ef", "10", "32", "54", "76", "98", "BA", "DC", "FE", "ba", "dc", "fe"]):
    HEX += [(r"\x{%s}" % "".join(x), octets(*(int(v, 16) for v in x))), ("".join(r"\x" + v for v in x), octets(*(int(v, 16) for v in x)))]
HEX += [(r"\x%s|\x%s" % (a, b), [S(int(a, 16), int(b, 16))]) for a, b in chunks("0123456789ABCDEFabcdef", 2)]
HEX += [(r"\x{A}", octets(10)), (r"\x{f}", octets(15))]
for x in chunks(["012", "123", "234", "345", "056", "167", "270", "301"]):
    v = octets(*(int(y, 8) for y in x))
    OCTAL += [(r"\o{%s}" % "".join(x), v), ("".join(r"\o" + y for y in x), v), ("".join("\\" + y for y in x), v)]
# bytes above 127, written as they are
BRACKETS += [
    ("[\udc80-\udcbf]", [S((0x80, 0xbf))]), ("[\udcc3-\udcff]", [S((0xc3, 0xff))]), ("[^\udc80-\udcff]", [S((0, 0x7f))]),
    ("[a-z\udc80-\udcff_]", [S(("a", "z"), (0x80, 0xff), "_")]), ("[\udcc3\udca9]", [S(0xc3, 0xa9)]), ("[^\udcfe]", [neg(S(0xfe))]),
    ("[\udcc2-\udcdf][\udc80-\udcbf]", [S((0xc2, 0xdf)), S((0x80, 0xbf))]), ("[\x01-\x1f]", [S((1, 0x1f))]),
]
LITERALS += [("\udcff", octets(0xff)), ("a\udc80b", octets(ord("a"), 0x80, ord("b"))), ("\\\udcff", octets(0xff))]
# many characters in one literal, many ranges in one bracket
BRACKETS += [("[" + "".join(chr(c) for c in range(ord("!"), ord("Z"), 2) if chr(c) not in "[]\\^-()\"") + "]",
              [S("".join(chr(c) for c in range(ord("!"), ord("Z"), 2) if chr(c) not in "[]\\^-()\""))]),
             ("[0-13-46-79A-CE-GI-KM-OQ-SU-W]", [S(("0", "1"), ("3", "4"), ("6", "7"), "9", ("A", "C"), ("E", "G"), ("I", "K"), ("M", "O"), ("Q", "S"), ("U", "W"))]),
             ("[^0-13-46-79A-CE-GI-KM-OQ-SU-W]", [neg(S(("0", "1"), ("3", "4"), ("6", "7"), "9", ("A", "C"), ("E", "G"), ("I", "K"), ("M", "O"), ("Q", "S"), ("U", "W")))])]
SETS = {"class": CLASSES, "escape": ESCAPES, "hex": HEX, "octal": OCTAL, "bracket": BRACKETS, "literal": LITERALS, "sequence": SEQUENCES,
        "group": GROUPS}


def member(s, e):
    """A C++ expression: is e (unsigned char) in the set s?"""
    parts, i = [], 0
    xs = sorted(s)
    while i < len(xs):
        j = i
        while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
            j += 1
        lo, hi = xs[i], xs[j]
        if lo == hi:
            parts.append("%s == %d" % (e, lo))
        elif lo == 0 and hi == 255:
            return "true"
        elif lo == 0:
            parts.append("%s <= %d" % (e, hi))
        elif hi == 255:
            parts.append("%s >= %d" % (e, lo))
        else:
            parts.append("(%s >= %d && %s <= %d)" % (e, lo, e, hi))
        i = j + 1
    return "(" + " || ".join(parts or ["false"]) + ")"


def c_string(p):
    return "".join(ch if 32 <= ord(ch) < 127 and ch not in '"\\' else "".join("\\%03o" % b for b in ch.encode("utf-8", "surrogateescape")) if ch not in '"\\' else "\\" + ch
                   for ch in p)


def functions(name, pattern, oracle):
    n = len(oracle)
    p = c_string(pattern)
    want = " && ".join(member(s, "c%d" % i) for i, s in enumerate(oracle))
    F = []
    reach = ["accepted"] + (["rejected"] if any(s != ALL for s in oracle) else [])
    F.append((name + "_whole", reach, '''extern "C" void sa_entry_%s_whole()
{
    using R = e_regex::regex<"%s">;
    const char* const b = sa_begin();
    const char* const e = sa_end();
    sa_assume(e == b + %d);
    auto m = R::match({b, e});
%s
    if (m.is_accepted())
    {
        sa_reach("accepted");
        sa_check("only the documented characters are accepted", %s);
        sa_check("a class consumes exactly one character", m.to_view().data() == b && m.to_view().data() + m.to_view().size() == e);
    }
    else
    {
%s
        sa_check("every documented character is accepted", !(%s));
    }
}
''' % (name, p, n, "\n".join("    const unsigned char c%d = b[%d];" % (i, i) for i in range(n)), want,
       '        sa_reach("rejected");' if len(reach) > 1 else "", want)))
    F.append((name + "_any", ["accepted", "rejected"], '''extern "C" void sa_entry_%s_any()
{
    using R = e_regex::regex<"%s">;
    const char* const b = sa_begin();
    const char* const e = sa_end();
    auto m = R::match({b, e});
    if (m.is_accepted())
    {
        sa_reach("accepted");
        sa_check("a class consumes exactly one character", m.to_view().size() == %d);
        sa_check("a match lies inside the input", m.to_view().data() >= b && m.to_view().data() + m.to_view().size() <= e);
    }
    else
    {
        sa_reach("rejected");
        sa_check("a rejected result is an empty view", m.to_view().empty());
    }
}
''' % (name, p, n)))
    F.append((name + "_short", ["rejected"], '''extern "C" void sa_entry_%s_short()
{
    using R = e_regex::regex<"%s">;
    const char* const b = sa_begin();
    const char* const e = sa_end();
    sa_assume(e < b + %d);
    auto m = R::match({b, e});
    sa_check("an input that is too short is rejected", !m.is_accepted());
    sa_reach("rejected");
}
''' % (name, p, n)))
    return F


def generate(select=None, shards=16, families=None, parts=("whole", "any", "short")):
    E, lens = [], {}
    for fam, pats in SETS.items():
        if families and fam not in families:
            continue
        for i, (pattern, oracle) in enumerate(pats):
            name = "%s_%02d" % (fam, i)
            for n, reach, text in functions(name, pattern, oracle):
                lens[n] = oracle if n.endswith("_whole") else ()
                if n.rsplit("_", 1)[1] in parts and (select is None or select(n)):
                    E.append((n, text, pattern, reach))
    tus = []
    for s in range(shards):
        part = E[s::shards]
        if part:
            tus.append(TU("class%02d" % s, '#include "sa.hpp"\n#include "e_regex.hpp"\n' + "".join(t for _, t, _, _ in part),
                          {n: {"reach": r, "what": p, "bounded": len(lens[n]) or None} for n, _, p, r in part}))
    return tus
