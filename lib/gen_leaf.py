"""Real leaves (classes, escapes, brackets, literals) inside sequences and alternatives, with
probes as neighbours.

bare   a leaf tried at the start: accepted if and only if its characters are there (by the oracle of
       gen_class), the position after it, or the position and the groups as they were
alt    (?:leaf|B): B is tried exactly when the leaf does not match, where the leaf was tried
optB   (?:leaf)?B: B is tried after the leaf or where the leaf was tried
seqalt A(?:leaf|B): the same at any position
grp    (?:(leaf)|B): the group of a leaf that fails half-way keeps what it was"""
import re

import gen_class
from gen_class import c_string
from sa import TU

PROBE_CHARS = "ABDXYZMNRPQEV"
SPECIAL = re.compile(r"\\x4|\\o\{?1[0-2]|\\10|\\x\{4|\\x\{7\}|\\o\{12")


def usable(p, oracle):
    """The pattern must not contain a character that stands for a probe."""
    plain = re.sub(r"\\[xo]\{?[0-9A-Fa-f]+\}?|\\.|.-.", "", p)
    if any(c in plain for c in PROBE_CHARS):
        return False
    if any(len(s) == 1 and chr(next(iter(s))) in PROBE_CHARS for s in oracle):
        return False
    return True


def corpus():
    out = []
    for fam, pats in gen_class.SETS.items():
        for i, (p, oracle) in enumerate(pats):
            if usable(p, oracle):
                out.append(("%s_%02d" % (fam, i), p, oracle))
    out += [("more_%02d" % i, p, o) for i, (p, o) in enumerate([
        (r"\x{6162}", gen_class.lit("ab")), (r"\x{616263}", gen_class.lit("abc")), (r"\o{141142143}", gen_class.lit("abc")),
        (r"[a-c][d-f]", [gen_class.S(("a", "c")), gen_class.S(("d", "f"))]), (r"a\x{6162}", gen_class.lit("aab")),
        (r"hello", gen_class.lit("hello")[:5]), (r"\x{61}\d", [gen_class.S("a"), gen_class.D]), (r"\d\x{6162}", [gen_class.D] + gen_class.lit("ab")),
    ]) if len(o) <= 4]
    return out


TEMPLATES = {
    "bare": ("(?:%s)", ["yes", "no"], '''
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("a leaf accepts only its characters", there());
        sa_check("what follows a leaf starts where its characters end", pos == b + %(n)d);
    }
    else
    {
        sa_reach("no");
        sa_check("a leaf accepts its characters", !matches);
        restored(d, b);
    }'''),
    "alt": ("(?:%s|B)", ["first", "second", "no"], '''
    if (NOT(B))
    {
        sa_reach("first");
        sa_check("the second alternative is tried when the first fails", d.accepted && there() && pos == b + %(n)d);
    }
    else
    {
        sa_check("the second alternative is tried only when the first fails", !matches);
        sa_check("a rejected first alternative leaves no trace: the second is entered with the position before it", d.g->atB == b);
        if (OK(B)) { sa_reach("second"); sa_check("the second alternative decides when the first fails", d.accepted && pos == endB()); }
        if (NO(B)) { sa_reach("no"); sa_check("an alternative fails when every part fails", !d.accepted); restored(d, b); }
    }'''),
    "optB": ("(?:%s)?B", ["yes", "no"], '''
    sa_check("what follows an optional leaf is tried", !NOT(B));
    sa_check("what follows an optional leaf is entered with the position before or after the leaf", d.g->atB == b || (d.g->atB == b + %(n)d && there()));
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("a sequence with an optional leaf ends where its last part ends", OK(B) && pos == endB());
    }
    else
    {
        sa_reach("no");
        sa_check("a sequence with an optional leaf is rejected when what follows fails", NO(B));
        restored(d, b);
    }'''),
    "grp": ("(?:(%s)|B)", ["first", "second", "no"], '''
    if (NOT(B))
    {
        sa_reach("first");
        sa_check("group 1 is what its parentheses matched", d.accepted && captured<1>(d, b, b + %(n)d));
    }
    else
    {
        sa_check("a rejected first alternative leaves no trace: the second is entered with the position before it", d.g->atB == b);
        sa_check("a group whose leaf fails stays as it was: restores the groups", untouched<1>(d));
        if (OK(B)) sa_reach("second");
        if (NO(B)) { sa_reach("no"); restored(d, b); }
    }'''),
    "seqalt": ("A(?:%s|B)", ["second", "no"], '''
    if (OK(B) || NO(B))
    {
        sa_check("a rejected first alternative leaves no trace: the second is entered with the position before it", OK(A) && d.g->atB == endA());
        if (OK(B)) { sa_reach("second"); sa_check("the second alternative decides when the first fails", d.accepted && pos == endB()); }
        if (NO(B)) sa_reach("no");
    }
    if (!d.accepted) restored(d, s);'''),
}


def function(name, t, pattern, oracle):
    shape, reach, body = TEMPLATES[t]
    n = len(oracle)
    full = all(s == gen_class.ALL for s in oracle)
    L = ['extern "C" void sa_entry_%s()\n{' % name, '    START("%s")' % c_string(shape % pattern)]
    if t != "seqalt":
        L.append("    sa_assume(s == b);")
        # asked before (what is missing) and afterwards (what was seen): the sets of the bytes are
        # kept one by one, so each question needs its own point
        L.append("    auto there = [&] {")
        L.append("        if (e - b < %d) return false;" % n)
        for i, s in enumerate(oracle):
            L.append("        { const unsigned char c = b[%d]; if (!%s) return false; }" % (i, gen_class.member(s, "c")))
        L.append("        return true;\n    };\n    const bool matches = there();")
    L.append("    GO")
    L.append(body % {"n": n} + "\n}\n")
    return "\n".join(L), reach


def generate(select=None, shards=16, templates=None):
    E = []
    for fam, p, oracle in corpus():
        for t in TEMPLATES:
            if templates and t not in templates:
                continue
            name = "%s_%s" % (t, fam)
            if select is None or select(name):
                text, reach = function(name, t, p, oracle)
                E.append((name, text, c_string(TEMPLATES[t][0] % p), reach))
    tus = []
    for s in range(shards):
        part = E[s::shards]
        if part:
            tus.append(TU("leaf%02d" % s, '#include "sequence_probes.hpp"\nusing namespace probe;\n' + "".join(x for _, x, _, _ in part),
                          {n: {"reach": r, "what": p} for n, _, p, r in part}))
    return tus
