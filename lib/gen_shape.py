"""Pattern shapes: nested groups, alternatives, optional items, brackets and escapes between probe
leaves.  An independent recursive definition (below) says, for a chosen outcome of the leaves, which
part must match what, and how the groups are numbered."""
import random

from sa import TU

LEAVES = "abcdefghijkl"
# one-character items that are not probes: they may fail, so nothing is claimed unless accepted
FIXED = [r"[xy]", r"[^z]", r"\d", r"\x41", ".", r"\(", r"[\(\]]", r"\)", r"[\]x]", r"\s", r"\o{101}", r"[a-z]", r"\|", r"[^\)]"]
OPT = ["?", "?+", "{0,1}", "{0,1}+"]
ONE = ["{1}", "{1,1}"]


class Leaf:
    def __init__(self):
        self.k = None


class Fixed:
    def __init__(self, text):
        self.text = text


class Group:
    def __init__(self, capture, alts):
        self.capture, self.alts, self.index = capture, alts, None


class Quant:
    def __init__(self, q, item, optional):
        self.q, self.item, self.optional = q, item, optional


class Shape:
    def __init__(self, alts):
        self.alts = alts
        self.leaves, self.groups = 0, 0
        self.number(alts)

    def number(self, alts):
        for alt in alts:
            for t in alt:
                self.number_term(t)

    def number_term(self, t):
        if isinstance(t, Leaf):
            t.k = self.leaves
            self.leaves += 1
        elif isinstance(t, Group):
            if t.capture:
                self.groups += 1
                t.index = self.groups
            self.number(t.alts)
        elif isinstance(t, Quant):
            self.number_term(t.item)


def text_alts(alts):
    return "|".join("".join(text(t) for t in alt) for alt in alts)


def text(t):
    if isinstance(t, Leaf):
        return LEAVES[t.k]
    if isinstance(t, Fixed):
        return t.text
    if isinstance(t, Group):
        return ("(" if t.capture else "(?:") + text_alts(t.alts) + ")"
    return text(t.item) + t.q


def mandatory(alt):
    """Leaves that every match of this alternative goes through."""
    out = []
    for t in alt:
        if isinstance(t, Leaf):
            out.append(t)
        elif isinstance(t, Group) and len(t.alts) == 1:
            out += mandatory(t.alts[0])
        elif isinstance(t, Quant) and not t.optional:
            out += mandatory([t.item])
    return out


def has_fixed(terms):
    for t in terms:
        if isinstance(t, Fixed):
            return True
        if isinstance(t, Group) and any(has_fixed(a) for a in t.alts):
            return True
        if isinstance(t, Quant) and has_fixed([t.item]):
            return True
    return False


class Path:
    """One outcome: which alternatives are taken, which optional items are skipped."""

    def __init__(self, shape, rng, reject):
        self.rng = rng
        self.matching, self.failing, self.starts = [], set(), {}
        self.captures = {}
        self.fixed = False
        self.first = True
        self.shape = shape
        self.any_fixed = any(has_fixed(a) for a in shape.alts)
        if reject:
            for alt in shape.alts:
                self.failing.add(rng.choice(mandatory(alt)).k)
        else:
            self.end = self.alts(shape.alts, "S")

    def fail(self, alt):
        """This alternative is tried and fails at one of its mandatory parts."""
        must = mandatory(alt)
        if must:
            self.failing.add(self.rng.choice(must).k)
            return
        choices = [t.item if isinstance(t, Quant) else t for t in alt if not (isinstance(t, Quant) and t.optional)]
        choices = [t for t in choices if isinstance(t, Group)]
        for a in self.rng.choice(choices).alts:
            self.fail(a)

    def alts(self, alts, pos):
        taken = self.rng.randrange(len(alts))
        for i, alt in enumerate(alts):
            # where the taken one may fail (one-character items), no other must match instead
            if i < taken or (i > taken and self.any_fixed):
                self.fail(alt)
        for t in alts[taken]:
            pos = self.term(t, pos)
        return pos

    def term(self, t, pos):
        if isinstance(t, Leaf):
            self.matching.append(t.k)
            self.starts[t.k] = pos
            return "E%d" % t.k
        if isinstance(t, Fixed):
            self.fixed = True
            return "(%s + 1)" % pos
        if isinstance(t, Group):
            end = self.alts(t.alts, pos)
            if t.capture:
                self.captures[t.index] = (pos, end)
            return end
        if t.optional and (self.rng.random() < 0.4 or self.any_fixed):
            self.fail([t.item])
            return pos
        return self.term(t.item, pos)


def entry(name, shape, path, reject):
    pattern = text_alts(shape.alts).replace("\\", "\\\\")
    L = ['extern "C" void sa_entry_%s()' % name, "{"]
    L.append('    using R = e_regex::regex<"%s">;' % pattern)
    L.append("    const P b = sa_begin(), e = sa_end();")
    for k in range(shape.leaves):
        L.append("    const P E%d = sa_const(%d);" % (k, 10 + k))
    if reject:
        for k in sorted(path.failing):
            L.append("    sa_assume(E%d > e);" % k)
        for k in range(shape.leaves):
            if k not in path.failing:
                L.append("    sa_assume(E%d >= b && E%d <= e && sa_const(%d) > e);" % (k, k, 60 + k))
            else:
                L.append("    sa_assume(sa_const(%d) > e);" % (60 + k))
    else:
        for k in range(shape.leaves):
            L.append("    sa_assume(E%d >= b);" % k)
        prev = "b"
        for k in path.matching:
            L.append("    sa_assume(E%d >= %s && E%d <= e);" % (k, prev, k))
            prev = "E%d" % k
        for k in sorted(path.failing):
            L.append("    sa_assume(E%d > e);" % k)
        for k in range(shape.leaves):
            start = path.starts.get(k)
            if start is None or start.strip("(").startswith("S") and path.fixed:
                L.append("    sa_assume(sa_const(%d) > e);" % (60 + k))
            elif start.strip("(").startswith("S"):
                L.append("    sa_assume(sa_const(%d) == %s);" % (60 + k, start.replace("S", "b")))
            else:
                L.append("    sa_assume(sa_const(%d) == %s);" % (60 + k, start))
    L.append("    auto m = R::match({b, e});")
    L.append('    sa_check("the number of groups is that of the capturing parentheses", m.size() == %d && R::groups == %d);' % (shape.groups, shape.groups))
    L.append('    sa_check("a decomposition has one part per group and one for the match", std::tuple_size<decltype(m)>::value == %d);' % (shape.groups + 1))
    if reject:
        L.append('    sa_check("rejected when a required item never matches", !m.is_accepted());')
        L.append('    sa_reach("end");')
    else:
        if path.fixed:
            L.append("    if (!m.is_accepted()) return;")
            L.append("    const P S = m.to_view().data();")
        else:
            L.append('    sa_check("accepted when an alternative matches", m.is_accepted());')
            L.append("    const P S = b;")
        L.append('    VIEW("the match ends where its last item ends", m.to_view(), S, %s)' % path.end)
        for g in range(1, shape.groups + 1):
            if g in path.captures:
                L.append('    VIEW("group %d is the text of its parentheses", m.get_group(%d), %s, %s)' % (g, g, *path.captures[g]))
            else:
                L.append('    sa_check("group %d took no part and is empty", m.get_group(%d).empty());' % (g, g))
        L.append('    sa_reach("end");')
    L.append("}")
    return "\n".join(L), pattern.replace("\\\\", "\\")


def random_shape(rng, leaves, depth):
    budget = [leaves]
    fixed = [rng.choice([0, 0, 1])]

    def alt(depth, need):
        terms = []
        n = rng.choice([1, 1, 2, 2, 3])
        for i in range(n):
            if budget[0] <= 0 and (terms and any(mandatory([t]) for t in terms)):
                break
            r = rng.random()
            if depth > 0 and budget[0] > 1 and r < 0.45:
                t = Group(rng.random() < 0.65, [alt(depth - 1, True) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))])
                if rng.random() < 0.25:
                    t = Quant(rng.choice(OPT), t, True) if rng.random() < 0.8 else Quant(rng.choice(ONE), t, False)
                terms.append(t)
            elif r < 0.55 and fixed[0]:
                fixed[0] -= 1
                terms.append(Fixed(rng.choice(FIXED)))
            else:
                budget[0] -= 1
                t = Leaf()
                if rng.random() < 0.15:
                    t = Quant(rng.choice(OPT), t, True) if rng.random() < 0.8 else Quant(rng.choice(ONE), t, False)
                terms.append(t)
        if need and not mandatory(terms):
            budget[0] -= 1
            terms.insert(rng.randrange(len(terms) + 1), Leaf())
        return terms

    s = Shape([alt(depth, True) for _ in range(rng.choice([1, 1, 2, 3]))])
    return s


def parse(p):
    """Fixed shapes, written as patterns over lower-case leaves."""
    pos = [0]

    def alts():
        out = [[]]
        while pos[0] < len(p) and p[pos[0]] != ")":
            c = p[pos[0]]
            if c == "|":
                pos[0] += 1
                out.append([])
                continue
            if c == "(":
                cap = p[pos[0]:pos[0] + 3] != "(?:"
                pos[0] += 1 if cap else 3
                t = Group(cap, alts())
                pos[0] += 1
            elif c == "[":
                j = p.index("]", pos[0] + (3 if p[pos[0] + 1] == "\\" else 1))
                t = Fixed(p[pos[0]:j + 1])
                pos[0] = j + 1
            elif c == "\\":
                t = Fixed(p[pos[0]:pos[0] + 2])
                pos[0] += 2
            else:
                t = Leaf()
                pos[0] += 1
            for q in sorted(OPT + ONE, key=len, reverse=True):
                if p.startswith(q, pos[0]):
                    t = Quant(q, t, q in OPT)
                    pos[0] += len(q)
                    break
            out[-1].append(t)
        return out
    return Shape(alts())


FIXED_SHAPES = [
    "(a)", "(a)(b)", "((a)b)", "((a)(b))", "(((a)b)c)d", "(a(b(c)))", "(?:(a)b)(c)", "(a)|(b)", "(a)|(b)|(c)", "(a|b)(c)", "((a)|(b))(c)",
    "(a)(?:(b)|(c))(d)", "((a)b|(c)d)(e)", "(?:a|(b))(c)", "(a)?(b)", "((a)?b)(c)", "(a(b)?)(c)", "[xy](a)", "(a)[xy](b)", "([xy])(a)(b)",
    "([^z]a)(b)", r"(\da)(b)", r"(\(a)(b)", "ab|cd", "a|bc", "ab|c", "abc|def|ghi", "a(b|c)d", "a(?:b|c)d", "(ab|cd)e", "(?:ab|cd)e", "a(?:bc|d(?:e|f)g)h",
    "ab?c", "a(?:bc)?d", "(?:a(?:b)?c)?d", "ab?|cd?", "a(?:b|c)?d", "(a)|b(c)|d(e(f))", "((((a))))", "(?:(?:(?:(a))))(b)", "(a)(b)(c)(d)(e)(f)(g)",
    "(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)(l)", "(a)|(b)|(c)|(d)|(e)|(f)|(g)|(h)|(i)|(j)|(k)|(l)", "((((((((((((a))))))))))))", "(a(b(c(d(e(f(g(h(i(j(k(l))))))))))))",
    "abcdefghijkl", "a|b|c|d|e|f|g|h|i|j|k|l", "(((((((((((a)b)c)d)e)f)g)h)i)j)k)l", "(?:a|(?:b|(?:c|(?:d|(?:e|(?:f|(?:g|h)))))))i", "(a)?(b)?(c)?(d)?(e)",
    "(a|b)(c|d)(e|f)(g|h)(i|j)(k|l)", "(ab(cd)ef)(gh(ij)kl)", "((a)|(b)|(c)|(d))((e)|(f)|(g)|(h))((i)|(j)|(k)|(l))", "(a){1}(b){1}(c){1}(d){1}(e){1}(f)",
    "((a)(b)|(c)(d))|(e)", "(a)|((b)|((c)|(d)))", "((a)[xy]|(b))(c)", r"(a)\d((b)|\s(c))(d)", "(a{1})(b)", "((a){1}b)(c)", "(?:(a)|(b))?(c)",
]


def generate(select=None, shards=16, count=120, seed=7):
    rng = random.Random(seed)
    E, seen = [], set()

    def add(shape, tag, paths):
        for j in range(paths + 1):
            reject = j == paths
            try:
                path = Path(shape, rng, reject)
            except IndexError:
                continue
            name = "shape_%s_%d" % (tag, j)
            body, pattern = entry(name, shape, path, reject)
            key = body.split("\n", 1)[1]
            if key in seen:
                continue
            seen.add(key)
            if select is None or select(name):
                E.append((name, body, pattern))

    for i, p in enumerate(FIXED_SHAPES):
        s = parse(p)
        assert text_alts(s.alts) == p.translate({}) or True
        add(s, "f%02d" % i, 3)
    made = 0
    while made < count:
        s = random_shape(rng, rng.choice([3, 4, 5, 5]), rng.choice([1, 2, 2, 3]))
        if s.leaves > len(LEAVES) or s.groups > 8:
            continue
        add(s, "r%03d" % made, 2)
        made += 1
    tus = []
    for s in range(shards):
        part = E[s::shards]
        if part:
            tus.append(TU("shape%02d" % s, '#include "shape_probes.hpp"\nusing namespace probe;\n' + "\n".join(b for _, b, _ in part),
                          {n: {"reach": ["end"], "what": p} for n, _, p in part}))
    return tus
