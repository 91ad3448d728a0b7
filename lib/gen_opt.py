"""Quantifier entries whose leaves have narrow sets of first characters, so that the optimizer
has something to decide.  The expected behaviour is the one of the pattern as written.

overlap   what follows shares a first character with the operand: it may accept after any number
          of repetitions, so no conversion may lose one
disjoint  what follows never accepts where the operand does: it accepts at the end of the run
          or nowhere
nullable  what follows may be absent: greedy takes the longest run, lazy the shortest"""
import gen_quant
from gen_quant import MODES, SUFFIX
from sa import TU

BOUNDS = [("*", 0, None), ("+", 1, None), ("?", 0, 1), ("{2,}", 2, None), ("{1,3}", 1, 3), ("{0,2}", 0, 2)]
A = "e_regex::admitted_set<char, %s>"
NOT = "e_regex::admitted_set_complement_t<e_regex::admitted_set<char, %s>>"


def chars(s):
    return ", ".join("'%s'" % c for c in sorted(s))


# name: (set of R, set of C, set of Z)
OVERLAP = {
    "one": (A % chars("R"), A % chars("CR"), A % chars("Z")),
    "last": (A % chars("abcR"), A % chars("Rxyz"), A % chars("Z")),
    "neg": (NOT % chars("x"), A % chars("C"), A % chars("x")),
    "negs": (NOT % chars("ab"), NOT % chars("cd"), A % chars("a")),
    "cneg": (A % chars("bc"), NOT % chars("ab"), A % chars("a")),
    "same": (A % chars("a"), A % chars("a"), A % chars("b")),
}
DISJOINT = {
    "one": (A % chars("R"), A % chars("C"), A % chars("Z")),
    "neg": (NOT % chars("Cxyz"), A % chars("C"), A % chars("x")),
    "cneg": (A % chars("ab"), NOT % chars("abZ"), A % chars("Z")),
}
# contexts with an optional Z (which matches nowhere) between the operand and what follows
OPTIONAL = [
    ("opt", "RQZ?C", 0, 1, {}), ("star", "RQZ*C", 0, 1, {}), ("lazyopt", "RQZ??C", 0, 1, {}), ("ncopt", "RQ(?:Z)?C", 0, 1, {}),
    ("capopt", "RQ(Z)?(C)", 0, 1, {1: "unset", 2: ("G", "E")}), ("zfirst", "RQ(?:Z|C)", 0, 1, {}), ("zlast", "RQ(?:C|Z)", 0, 1, {}),
    ("gopt", "(RQ)Z?C", 0, 1, {1: ("S", "G")}), ("ncbraces", "(?:RQ)Z{0,2}C", 0, 1, {}), ("twoopt", "RQZ?Z*C", 0, 1, {}),
    ("inner", "RQ(?:Z?C)", 0, 1, {}), ("opt3", "RQ(?:Z?)C", 0, 1, {}), ("altopt", "RQ(?:Z|Z?C)", 0, 1, {}),
    ("nested", "((RQ))Z?C", 0, 1, {1: ("S", "G"), 2: ("S", "G")}), ("deepopt", "(?:A(?:RQ))Z*(?:Z|C)", 1, 1, {}),
    ("possopt", "RQZ?+C", 0, 1, {}),
    ("emptyplus", "RQ(?:Z?)+C", 0, 1, {}), ("emptylazy", "RQ(?:Z*)+?C", 0, 1, {}), ("emptyposs", "RQ(?:Z?)++C", 0, 1, {}),
    ("emptyrange", "RQ(?:Z?){1,3}C", 0, 1, {}), ("emptytwice", "RQ(?:Z?){2}C", 0, 1, {}), ("emptyalt", "RQ(?:Z|Z?)+C", 0, 1, {}),
    ("wrapcont", "RQ((?:C))", 0, 1, {1: ("G", "E")}), ("plusz", "RQ(?:Z+|C)", 0, 1, {}), ("anchored", "^RQC", 0, 1, {}),
    ("lit", "RQZ?Z?Z?C", 0, 1, {}), ("seqalt", "RQ(?:ZC|C)", 0, 1, {}), ("altgroups", "RQ(?:(Z)|(C))", 0, 1, {1: "unset", 2: ("G", "E")}),
]
# the operand ends a group in which other parts come before or beside it: what follows the group
# must reach it through every kind of node
INJECTED = [
    ("injalt", "(?:RQ|Z)C", 0, 1, {}), ("injalt2", "(?:Z|RQ)C", 0, 1, {}), ("ginjalt", "(RQ|Z)C", 0, 1, {1: ("S", "G")}),
    ("ginjalt2", "(Z|RQ)C", 0, 1, {1: ("S", "G")}), ("injseqalt", "(?:ARQ|Z)C", 1, 1, {}), ("injaltalt", "(?:(?:Z|RQ)|Z)(?:Z|C)", 0, 1, {}),
    ("injrep", "(?:A{2}RQ)C", 2, 1, {}), ("injopt", "(?:Z?RQ)C", 0, 1, {}), ("injstar", "(?:Z*RQ)C", 0, 1, {}),
    ("injlazy", "(?:Z??RQ)C", 0, 1, {}), ("injposs", "(?:Z?+RQ)C", 0, 1, {}), ("injcap", "(?:(A)RQ)C", 1, 1, {1: ("B", "S")}),
    ("injnc", "(?:(?:A)RQ)C", 1, 1, {}), ("injdeep", "(?:A(?:RQ))C", 1, 1, {}), ("injbol", "(?:^RQ)C", 0, 1, {}),
    ("injaltrep", "(?:Z|A{2}RQ)C", 2, 1, {}), ("injgrep", "(A{1}RQ)Z?C", 1, 1, {1: ("B", "G")}), ("injzopt", "(?:(Z)?RQ)C", 0, 1, {1: "unset"}),
]
INJECTED_SETS = ("one", "neg")
BASIC = [c for c in gen_quant.CONTEXTS if c[0] in ("plain", "ncgroup", "group", "operand", "inside", "altoperand", "altcont", "capcont",
                                                    "secondaltgroup", "deep", "prefixgroup")]
NULLABLE = [
    ("bare", "RQ", 0, {}, False), ("opt", "RQC?", 0, {}, True), ("ncopt", "RQ(?:C)?", 0, {}, True), ("star", "RQC*", 0, {}, True),
    ("gopt", "(RQ)C?", 0, {1: ("S", "G")}, True), ("capopt", "(RQ)(C?)", 0, {1: ("S", "G"), 2: ("G", "E")}, True),
    ("altopt", "RQ(?:Z|C)?", 0, {}, True), ("nested", "A((?:RQ))Z?C?", 1, {1: ("S", "G")}, True), ("braces", "RQC{0,1}", 0, {}, True),
    ("possopt", "(?:RQ)C?+", 0, {}, True), ("group", "A(RQ)", 1, {1: ("S", "G")}, False), ("zopt", "RQZ?", 0, {}, False),
    ("zstar", "(RQ)Z*Z?", 0, {1: ("S", "G")}, False),
]


def disjoint(name, pattern, mode, lo, hi, off, step, groups, case):
    """What follows accepts at g only, and g is not a position where the operand matches."""
    t = gen_quant.entry(name, pattern, mode, lo, hi, off, step, groups, case)
    t = t.replace("sa_assume(g < b);", "sa_assume(g > e);")
    extra = "    d.mode = 3; sa_assume(g >= f%s);\n" % (" && g > e" if case[0] == "no" else "")
    return t.replace("    M::match(d);", extra + "    M::match(d);")


def nullable(name, pattern, mode, lo, hi, off, groups, cont, case):
    """What follows may be absent.  case: few, stop (nothing follows at the end of the run),
    more (C accepts there), over (the run goes on beyond the bound)"""
    lazy = mode == "l"
    L = ['extern "C" void sa_entry_%s()\n{' % name, '    using M = typename e_regex::regex<"%s">::ast;' % pattern,
         "    probe::ghost_result<M> d;", "    const P b = sa_begin(), e = sa_end(), f = F(), g = G0();",
         "    sa_assume(f >= b + %d && f <= e%s);" % (off, " && G2() > g && G2() <= e" if case == "more" else ""),
         "    d.query = {b, e}; d.actual_iterator_start = b; d.actual_iterator_end = b; d.lo = b + %d; d.mode = 3;" % (off + lo)]
    lop = "b + %d" % (off + lo)
    if case == "few":
        L.append("    sa_assume(f < %s && g > e);" % lop)
    elif case == "over":
        L.append("    sa_assume(f > b + %d && g > e);" % (off + hi))
    else:
        L.append("    sa_assume(f >= %s%s);" % (lop, "" if hi is None else " && f <= b + %d" % (off + hi)))
        L.append("    sa_assume(%s);" % ("g == f" if case == "more" else "g > e"))
    L.append("    M::match(d);")
    if case == "few":
        L.append('    sa_check("rejected when repetitions are missing", !d.accepted);')
    else:
        stop = lop if lazy else ("b + %d" % (off + hi) if case == "over" else "f")
        L.append("    const P run = %s, end = %s;" % (stop, "run == f ? G2() : run" if case == "more" and cont else "run"))
        L.append('    sa_check("accepted with enough repetitions", d.accepted);')
        L.append('    sa_check("%s", d.actual_iterator_end == end);' % (
            "the shortest allowed run is taken when what follows may be absent" if lazy else "the longest allowed run is taken"))
        names = {"S": "b + %d" % off, "G": "run", "E": "end"}
        for idx, spec in sorted(groups.items()):
            L.append('    sa_check("group %d is what its parentheses matched", is_view(d.match_groups[%d], %s, %s));' % (
                idx, idx - 1, names[spec[0]], names[spec[1]]))
    L.append('    sa_reach("end");\n}')
    return "\n".join(L)


def generate(select=None, shards=2):
    tus = []

    def unit(name, sets, E, n):
        head = "#define SET_R %s\n#define SET_C %s\n#define SET_Z %s\n#define MIN_C 1\n" % sets + gen_quant.HEAD
        for s in range(n):
            part = E[s::n]
            if part:
                tus.append(TU("%s%02d" % (name, s), head + "\n".join(t for _, t, _ in part),
                              {n_: {"reach": ["end"], "what": p} for n_, _, p in part}))

    def loop(kind, sname, contexts, make, cases):
        E = []
        for m in "glp":
            for bi, (q, lo, hi) in enumerate(BOUNDS):
                for ctx in contexts:
                    p = ctx[1].replace("Q", q + SUFFIX[m])
                    for c in cases(m, lo, hi):
                        n = "%s_%s_%s_%s_%d_%s" % (kind, sname, m, ctx[0], bi, "".join(c))
                        if select is None or select(n):
                            E.append((n, make(n, p, m, lo, hi, ctx, c), p))
        return E

    for sname, sets in OVERLAP.items():
        E = loop("overlap", sname, BASIC + OPTIONAL + (INJECTED if sname in INJECTED_SETS else []),
                 lambda n, p, m, lo, hi, x, c: gen_quant.entry(n, p, MODES[m], lo, hi, x[2], x[3], x[4], c),
                 lambda m, lo, hi: [c for c in gen_quant.cases(MODES[m], lo, hi, 1) if c[0] != "no"] if m != "p" else [])
        unit("overlap_" + sname, sets, E, shards)
    for sname, sets in DISJOINT.items():
        E = loop("disjoint", sname, BASIC + OPTIONAL + (INJECTED if sname == "one" else []),
                 lambda n, p, m, lo, hi, x, c: disjoint(n, p, MODES[m], lo, hi, x[2], x[3], x[4], c),
                 lambda m, lo, hi: [("cut",), ("no",)] if m != "p" else [])
        unit("disjoint_" + sname, sets, E, shards)
        E = loop("nullable", sname, NULLABLE,
                 lambda n, p, m, lo, hi, x, c: nullable(n, p, m, lo, hi, x[2], x[3], x[4], c[0]),
                 lambda m, lo, hi: [(c,) for c in (["few"] if lo else []) + ["stop", "more"] + (["over"] if hi is not None else [])])
        unit("nullable_" + sname, sets, E, shards)
    return tus
