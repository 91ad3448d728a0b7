"""Quantifier entries: every mode x bounds x context, over probes (harness/quantifier_probes.hpp)."""
from sa import TU

MODES = {"g": 0, "l": 1, "p": 2}
SUFFIX = {"g": "", "l": "?", "p": "+"}
BOUNDS = [("*", 0, None), ("+", 1, None), ("?", 0, 1), ("{2,}", 2, None), ("{1,3}", 1, 3), ("{0,2}", 0, 2),
          ("{2,4}", 2, 4), ("{3,3}", 3, 3), ("{0,1}", 0, 1), ("{0,}", 0, None), ("{1,}", 1, None)]
# numbers of several digits, in a few contexts
LONG = [("{10,}", 10, None), ("{2,11}", 2, 11), ("{9,12}", 9, 12), ("{10,10}", 10, 10), ("{0,20}", 0, 20)]
LONG_EXACT = [("{10}", 10), ("{12}", 12), ("{21}", 21)]
LONG_CONTEXTS = ("plain", "prefix", "both", "bare", "bareboth")
EXACT = [("{1}", 1), ("{2}", 2), ("{3}", 3), ("{5}", 5)]

# name, pattern (Q: the quantifier), length of what precedes, units per repetition, groups
# groups: index -> (begin, end) expressions, where S is the start of the run, G the end of the run,
#         E the end of what follows; "last" is the last repetition, "unset" never set
CONTEXTS = [
    ("plain", "RQC", 0, 1, {}),
    ("prefix", "ARQC", 1, 1, {}),
    ("ncgroup", "(?:RQ)C", 0, 1, {}),
    ("group", "(RQ)C", 0, 1, {1: ("S", "G")}),
    ("operand", "(R)QC", 0, 1, {1: "last"}),
    ("both", "((R)Q)C", 0, 1, {1: ("S", "G"), 2: "last"}),
    ("inside", "(?:ARQC)", 1, 1, {}),
    ("capinside", "A(RQC)", 1, 1, {1: ("S", "E")}),
    ("ncoperand", "(?:R)QC", 0, 1, {}),
    ("altoperand", "(?:Z|R)QC", 0, 1, {}),
    ("altcont", "RQ(?:Z|C)", 0, 1, {}),
    ("capcont", "RQ(C)", 0, 1, {1: ("G", "E")}),
    ("secondalt", "Z|RQC", 0, 1, {}),
    ("secondaltgroup", "(Z)|(RQ)C", 0, 1, {1: "unset", 2: ("S", "G")}),
    ("deep", "((?:RQ))C", 0, 1, {1: ("S", "G")}),
    ("lazytail", "((?:RZ*?)Q)C", 0, 1, {1: ("S", "G")}),
    ("lazyopttail", "(?:(?:RZ??)Q)C", 0, 1, {}),
    ("greedytail", "((?:RZ?)Q)C", 0, 1, {1: ("S", "G")}),
    ("posstail", "A((RZ*+)Q)C", 1, 1, {1: ("S", "G"), 2: "last"}),
    ("prefixgroup", "(A)(RQ)(C)", 1, 1, {1: ("B", "S"), 2: ("S", "G"), 3: ("G", "E")}),
]
# several units per repetition: only with a bounded quantifier
WIDE = [
    ("seq2", "(?:RR)QC", 0, 2, {}),
    ("rep2", "(?:R{2})QC", 0, 2, {}),
    ("capseq2", "(RR)QC", 0, 2, {1: "last"}),
]


def entry(name, pattern, mode, lo, hi, off, step, groups, case):
    """One entry function; hi None: unbounded.

    case  ("no",)    what follows accepts nowhere, or repetitions are missing
          ("in",)    it accepts at some number of repetitions the mode may choose (step 1)
          ("cut",)   possessive: the operand stops matching before the maximum
          ("top",)   possessive: the operand would match beyond the maximum
          ("at", k)  it accepts after k repetitions"""
    exists = case[0] != "no"
    ng = len(groups)
    L = []
    L.append('extern "C" void sa_entry_%s()\n{' % name)
    L.append('    using M = typename e_regex::regex<"%s">::ast;' % pattern)
    L.append("    probe::ghost_result<M> d;")
    L.append("    const P b = sa_begin(), e = sa_end(), f = F(), g = G0();")
    L.append("    sa_assume(f >= b + %d && f <= e);" % off)
    L.append("    sa_assume(G2() >= b && G2() <= e);")
    if exists:
        L.append("    sa_assume(G2() >= g);")
    L.append("    d.query = {b, e}; d.actual_iterator_start = b; d.actual_iterator_end = b;")
    L.append("    d.mode = %d; d.lo = b + %d; d.step = %d;" % (mode, off + lo * step, step))
    if hi is not None:
        L.append("    d.bounded = true; d.hi = b + %d;" % (off + hi * step))
    S = off + lo * step
    if case[0] == "in":
        L.append("    sa_assume(f >= b + %d && g >= b + %d && g <= f);" % (S, S))
        if hi is not None:
            L.append("    sa_assume(g <= b + %d);" % (off + hi))
    elif case[0] == "cut":
        L.append("    sa_assume(f >= b + %d && g == f);" % S)
        if hi is not None:
            L.append("    sa_assume(f <= b + %d);" % (off + hi))
    elif case[0] == "top":
        L.append("    sa_assume(f > b + %d && g == b + %d);" % (off + hi, off + hi))
    elif case[0] == "at":
        k = case[1]
        L.append("    sa_assume(f >= b + %d && g == b + %d);" % (off + k * step, off + k * step))
        if mode == 2 and k != hi:
            L.append("    sa_assume(f < b + %d);" % (off + (k + 1) * step))
    else:
        # accepted nowhere within reach
        L.append("    sa_assume(%s);" % ("g > e" if mode == 1 else "g < b"))
        if len(case) > 1:
            L.append("    sa_assume(f %s b + %d);" % ("<=" if case[1] == "cut" else ">", off + hi))
    for i in range(ng):
        L.append("    const P u%d = sa_const(%d), v%d = sa_const(%d);" % (i, 20 + 2 * i, i, 21 + 2 * i))
        if not exists:
            L.append("    d.match_groups[%d] = e_regex::literal_string_view<> {u%d, v%d};" % (i, i, i))
    L.append("    M::match(d);")
    if exists:
        L.append('    sa_check("accepted when what follows accepts after an allowed number of repetitions", d.accepted);')
        L.append('    sa_check("the match ends where what follows ends", d.actual_iterator_end == G2());')
        names = {"B": "b", "S": "b + %d" % off, "G": "g", "E": "G2()"}
        for idx, spec in sorted(groups.items()):
            G = "d.match_groups[%d]" % (idx - 1)
            if spec == "unset":
                L.append('    sa_check("group %d stays unset", is_view(%s, nullptr, nullptr));' % (idx, G))
            elif spec == "last":
                L.append('    if (g == b + %d) sa_check("group %d is unset without repetitions", is_view(%s, nullptr, nullptr));'
                         % (off, idx, G))
                L.append('    else sa_check("group %d is the last repetition", is_view(%s, g - %d, g));' % (idx, G, step))
            else:
                L.append('    sa_check("group %d is what its parentheses matched", is_view(%s, %s, %s));'
                         % (idx, G, names[spec[0]], names[spec[1]]))
    else:
        L.append('    sa_check("rejected when what follows accepts nowhere or repetitions are missing", !d.accepted);')
        L.append('    sa_check("a rejected attempt restores the position", d.actual_iterator_end == b);')
        for i in range(ng):
            L.append('    sa_check("a rejected attempt restores the groups", is_view(d.match_groups[%d], u%d, v%d));' % (i, i, i))
    L.append('    sa_reach("end");')
    L.append("}")
    return "\n".join(L)


def cases(mode, lo, hi, step):
    out = [("no", "cut"), ("no", "top")] if mode == 2 and hi is not None and step == 1 else [("no",)]
    if step > 1:
        out += [("at", k) for k in range(lo, hi + 1)]
    elif mode == 2:
        out.append(("cut",))
        if hi is not None:
            out.append(("top",))
    else:
        out.append(("in",))
    return out


def bare(name, pattern, lo, hi, off, groups, case):
    """Nothing follows: greedy and possessive take the longest run."""
    L = []
    L.append('extern "C" void sa_entry_%s()\n{' % name)
    L.append('    using M = typename e_regex::regex<"%s">::ast;' % pattern)
    L.append("    probe::ghost_result<M> d;")
    L.append("    const P b = sa_begin(), e = sa_end(), f = F();")
    L.append("    sa_assume(f >= b + %d && f <= e);" % off)
    L.append("    d.query = {b, e}; d.actual_iterator_start = b; d.actual_iterator_end = b;")
    if case == "few":
        L.append("    sa_assume(f < b + %d);" % (off + lo))
    elif case == "cut":
        L.append("    sa_assume(f >= b + %d%s);" % (off + lo, "" if hi is None else " && f <= b + %d" % (off + hi)))
        L.append("    const P hi = f;")
    else:
        L.append("    sa_assume(f > b + %d);" % (off + hi))
        L.append("    const P hi = b + %d;" % (off + hi))
    L.append("    M::match(d);")
    if case != "few":
        L.append('    sa_check("accepted with enough repetitions", d.accepted);')
        L.append('    sa_check("the longest allowed run is taken", d.actual_iterator_end == hi);')
        for idx, spec in sorted(groups.items()):
            G = "d.match_groups[%d]" % (idx - 1)
            if spec == "last":
                L.append('    if (hi == b + %d) sa_check("group %d is unset without repetitions", is_view(%s, nullptr, nullptr));'
                         % (off, idx, G))
                L.append('    else sa_check("group %d is the last repetition", is_view(%s, hi - 1, hi));' % (idx, G))
            else:
                L.append('    sa_check("group %d is what its parentheses matched", is_view(%s, b + %d, hi));' % (idx, G, off))
    else:
        L.append('    sa_check("rejected when repetitions are missing", !d.accepted);')
        L.append('    sa_check("a rejected attempt restores the position", d.actual_iterator_end == b);')
        for idx in groups:
            L.append('    sa_check("a rejected attempt restores the groups", is_view(d.match_groups[%d], nullptr, nullptr));' % (idx - 1))
    L.append('    sa_reach("end");')
    L.append("}")
    return "\n".join(L)


def bare_cases(lo, hi):
    return (["few"] if lo else []) + ["cut"] + (["top"] if hi is not None else [])


BARE = [("bare", "RQ", 0, {}), ("barecap", "(RQ)", 0, {1: ("S", "G")}), ("barenc", "A(?:RQ)", 1, {}),
        ("bareop", "(R)Q", 0, {1: "last"}), ("bareboth", "A((R)Q)", 1, {1: ("S", "G"), 2: "last"})]

# hundreds of repetitions: what a narrow counter would lose
MANY = [("*", 0, None), ("+", 1, None), ("{2,}", 2, None), ("{250,260}", 250, 260), ("{0,300}", 0, 300), ("{256,}", 256, None), ("{257}", 257, 257),
        ("{256}", 256, 256)]
MANY_CONTEXTS = ("plain", "operand")


def many(name, pattern, mode, lo, hi, off, groups, n, at):
    """R matches n times; what follows accepts after `at` repetitions."""
    t = entry(name, pattern, mode, lo, hi, off, 1, groups, ("in",))
    return t.replace("    M::match(d);", "    sa_assume(f == b + %d && g == b + %d);\n    M::match(d);" % (off + n, off + at))


HEAD = '#include "quantifier_probes.hpp"\nusing namespace probe;\n'


def generate(select=None, shards=16):
    """All entries (optionally filtered), dealt over shards translation units."""
    E = []

    def add(name, pattern, make):
        if select is None or select(name):
            E.append((name, make(), pattern, ["end"]))

    def quantified(m, q, suffix, lo, hi, bi, mode, bare_too, contexts=None):
        for cname, pat, off, step, groups in CONTEXTS + (WIDE if hi is not None else []):
            if contexts and cname not in contexts:
                continue
            p = pat.replace("Q", q + suffix)
            for c in cases(mode, lo, hi, step):
                n = "%s_%s_%d_%s" % (m, cname, bi, "".join(str(x) for x in c))
                add(n, p, lambda: entry(n, p, mode, lo, hi, off, step, groups, c))
        if bare_too:
            for cname, pat, off, groups in BARE:
                if contexts and cname not in contexts:
                    continue
                p = pat.replace("Q", q + suffix)
                for c in bare_cases(lo, hi):
                    n = "%s_%s_%d_%s" % (m, cname, bi, c)
                    add(n, p, lambda: bare(n, p, lo, hi, off, groups, c))

    for m in "glp":
        for bi, (q, lo, hi) in enumerate(BOUNDS):
            quantified(m, q, SUFFIX[m], lo, hi, bi, MODES[m], m != "l")
    # recorded as a finding (known_findings.txt): only the last item of a group sees what follows the group
    add("tail_plus", "(?:R+Z?)C", lambda: entry("tail_plus", "(?:R+Z?)C", 0, 1, None, 0, 1, {}, ("in",)))
    for bi, (q, k) in enumerate(EXACT):
        quantified("x", q, "", k, k, bi, 0, True)
    for bi, (q, lo, hi) in enumerate(LONG):
        for m in "glp":
            quantified(m + "long", q, SUFFIX[m], lo, hi, bi, MODES[m], m != "l", LONG_CONTEXTS)
    for bi, (q, k) in enumerate(LONG_EXACT):
        quantified("xlong", q, "", k, k, bi, 0, True, LONG_CONTEXTS)
    depth = {}
    for bi, (q, lo, hi) in enumerate(MANY):
        for m in "glp":
            if m != "g" and lo == hi:
                continue
            for cname, pat, off, step, groups in CONTEXTS:
                for n in sorted({256, 257} & set(range(lo, (hi or 1000) + 1))):
                    for at in sorted({n, max(lo, 1)}) if m == "g" and cname == "plain" else [n]:
                        if cname in MANY_CONTEXTS:
                            name, p = "%smany_%s_%d_%d_%d" % (m, cname, bi, n, at), pat.replace("Q", q + SUFFIX[m])
                            depth[name] = n + 8
                            add(name, p, lambda: many(name, p, MODES[m], lo, hi, off, groups, n, at))
    tus = []
    for s in range(shards):
        part = E[s::shards]
        if not part:
            continue
        tus.append(TU("quant%02d" % s, HEAD + "\n".join(t for _, t, _, _ in part),
                      {n: {"reach": r, "what": p, "depth": depth.get(n)} for n, _, p, r in part}))
    return tus
