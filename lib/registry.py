"""Which components decide which property."""
import re
import zlib

import comp_effects
import comp_surface
import comp_zone
import gen_class
import gen_expr
import gen_first
import gen_leaf
import gen_opt
import gen_quant
import gen_search
import gen_seq
import gen_shape
import gen_token
import gen_walk

AI = ("Abstract interpretation (difference bounds x byte sets of the first characters) of the LLVM IR of the library's own "
      "templates, instantiated on the listed patterns and analysed for an arbitrary input of unbounded length; ")
PROBES = ("single-character leaves are replaced by probes whose behaviour is left open (any decision, any end position), so each "
          "obligation is decided for every leaf, every input and every number of repetitions at once.")

RESTORE = r"restores|undone|leaves no trace|stay as they were|stays unset|entered with|every attempt starts|keeps nothing|unset without"
GROUPS = r"group \d|groups? "
INSIDE = r"inside the input"


def pick(n, share):
    """A fixed share of the entries (the same ones on every run)."""
    return zlib.crc32(n.encode("utf-8", "surrogateescape")) % 100 < share


def quant(select, labels=None, rule="", quick_share=35, always=r"_(plain|bare)_|^tail"):
    def make(tier):
        rx, al = re.compile(select), re.compile(always)
        keep = lambda n: bool(rx.search(n)) and (tier == "thorough" or al.search(n) is not None or pick(n, quick_share))
        return comp_zone.run("quantifiers over probes", gen_quant.generate(keep, 16), labels, tier=tier, rule=rule)
    return make


def optimized(rule="", quick_share=15):
    def make(tier):
        keep = lambda n: tier == "thorough" or pick(n, quick_share)
        return comp_zone.run("quantifiers over probes with narrow first-character sets", gen_opt.generate(keep, 2), None, tier=tier,
                             rule=rule)
    return make


def first_characters(rule=""):
    def make(tier):
        keep = lambda n: tier == "thorough" or pick(n, 45 if n.startswith("first") else 35)
        return comp_zone.run("first characters", gen_first.generate(keep, 16, tier == "thorough"), None, tier=tier, rule=rule)
    return make


def first_sets(rule=""):
    def make(tier):
        keep = lambda n: n.startswith("first") and (tier == "thorough" or int(n[6:]) < CORE or pick(n, 35))
        return comp_zone.run("first characters", gen_first.generate(keep, 16, tier == "thorough"), r"derived set|not independent", tier=tier, rule=rule)
    return make


def positions(tier):
    """Positions formed by the library, over ordinary patterns, classes and tokenizers."""
    rule = "every position the library computes lies inside the input or at its end"
    rx, slow = re.compile("."), re.compile(SLOW)
    keep = lambda n: (tier == "thorough" or (not slow.search(n) and pick(n, 60)))
    return comp_zone.run("positions", gen_walk.generate(keep, 24) + gen_class.generate(None, 8, None, ("short",)) +
                         gen_token.generate(lambda n: tier == "thorough" or pick(n, 50), 8) + gen_search.generate(None, 4),
                         kinds=("arith",), tier=tier, rule=rule, extra=("--arith",))


def inc(module, name, select, labels=None, rule="", shards=8, kinds=("check", "reach")):
    def make(tier):
        rx = re.compile(select)
        return comp_zone.run(name, module.generate(lambda n: bool(rx.search(n)), shards), labels, kinds=kinds, tier=tier, rule=rule)
    return make


def seq(select, labels=None, rule=""):
    return inc(gen_seq, "sequences, alternatives and groups over probes", select, labels, rule)


def search(select=".", labels=None, rule="", kinds=("check", "reach")):
    return inc(gen_search, "search over probes", select, labels, rule, kinds=kinds)


def tokens(select=".", labels=None, rule="", kinds=("check", "reach")):
    return inc(gen_token, "tokenizer over probes", select, labels, rule, shards=16, kinds=kinds)


CORE = 8    # the character classes come first
SLOW = r"^(loop_(15|09|06)|walk_(48|38))$"


def walks(select=".", labels=None, rule="", kinds=("check", "reach")):
    def make(tier):
        rx, slow = re.compile(select), re.compile(SLOW)
        keep = lambda n: bool(rx.search(n)) and (tier == "thorough" or not slow.search(n))
        return comp_zone.run("walks over all matches of ordinary patterns", gen_walk.generate(keep, 24), labels, kinds=kinds,
                             tier=tier, rule=rule)
    return make


def classes(families, labels=None, parts=("whole", "any", "short"), rule="", kinds=("check", "reach")):
    def make(tier):
        return comp_zone.run("classes, escapes and literals byte by byte", gen_class.generate(None, 16, families, parts), labels,
                             kinds=kinds, tier=tier, rule=rule)
    return make


def leaves(templates, labels=None, rule="", share=40):
    def make(tier):
        keep = lambda n: tier == "thorough" or "_hex" in n or "_more" in n or pick(n, share)
        return comp_zone.run("real leaves next to probes", gen_leaf.generate(keep, 16, templates), labels, tier=tier, rule=rule)
    return make


def reported(rule=""):
    def make(tier):
        return comp_zone.run("reported expressions as patterns", gen_expr.generate(tier == "thorough", pick), None, tier=tier, rule=rule,
                             plain=((comp_zone.PLAIN, "the pattern \"%s\" does not compile"),
                                    (gen_expr.PLAIN, "the expression reported for \"%s\" is not a pattern with the same groups")))
    return make


def shape(labels=None, rule="", share=40):
    def make(tier):
        keep = lambda n: tier == "thorough" or "_f" in n or pick(n, share)
        tus = gen_shape.generate(keep, 16, count=400 if tier == "thorough" else 120)
        return comp_zone.run("pattern shapes over probes", tus, labels, tier=tier, rule=rule)
    return make


CHECKS = {
    "C01": {
        "level": "proof",
        "explanation": AI + "every load reachable from the public interface is an obligation: its address range lies inside the input "
                            "(or inside a constant table or a local object).",
        "components": [
            walks(kinds=("read",), rule="every load is inside the input: matching and iterating"),
            classes(None, None, ("any", "short"), kinds=("read",), rule="every load is inside the input: classes, escapes, literals"),
            search(kinds=("read",), rule="every load is inside the input: the search loop"),
            tokens(kinds=("check", "read"), labels=r"looked for inside", rule="every load is inside the input: tokenizing"),
        ],
    },
    "C02": {
        "level": "proof",
        "explanation": AI + "views handed out are related to the input, to their match and to the match before.",
        "components": [
            walks(labels=r"inside|overlap", rule="matches and groups inside the input, matches disjoint and in order"),
            tokens(r"^walk", r"inside|not empty|after the end", rule="tokens inside the input and in order"),
            search(".", r"start(s)? (after|at|inside)|at least one|further", rule="further matches start at or after the end of the previous one"),
        ],
    },
    "C03": {
        "level": "proof",
        "explanation": AI + PROBES + " The search loop of the public match result runs over a leaf that matches at unknown positions.",
        "components": [search(labels=r"^(?!\^)", rule="the result is the first position at which the pattern matches; next() goes on from its end")],
    },
    "C04": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [
            seq(".", RESTORE, rule="after a rejected part position and groups are what they were before it"),
            quant(r"_no|few", RESTORE, quick_share=25, rule="a rejected quantifier restores position and groups"),
            leaves(("alt", "seqalt", "optB", "grp"), RESTORE + r"|before or after", share=20,
                   rule="a leaf that fails half-way leaves position and groups as they were"),
            search(r"leftmost|none|next|third|group", RESTORE, rule="every attempt starts clean"),
        ],
    },
    "C05": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [
            search(r"none|last|end|assign|anchor|empty_input", r"reject|exhaust|end\(\)|ends after|no match|set to false",
                   rule="a result without a match is empty, in all its groups, and stays so"),
            classes(None, r"rejected result", ("any",), rule="a rejected result is an empty view"),
            walks(labels=r"exhausted|tells", rule="a walk ends with an empty result"),
        ],
    },
    "C06": {
        "level": "proof",
        "explanation": AI + "every byte set is compared with the documented one.",
        "components": [classes(None, r"documented|exactly one|too short",
                               rule="accepted if and only if every byte is in its documented set; as many characters as the pattern has"),
                       leaves(("bare",), r"accepts|ends", share=60, rule="the same inside a larger pattern, wherever the input ends")],
    },
    "C07": {
        "level": "proof",
        "explanation": AI + PROBES + " The expected parts come from an independent reading of the pattern (lib/gen_shape.py).",
        "components": [
            shape(r"item|accepted|rejected", rule="which item each operator applies to, for every outcome of the leaves"),
            quant(r"_(prefix|secondalt|seq2|rep2|ncoperand|altoperand|altcont)_", r"follows|accepted|longest|missing|match ends",
                  quick_share=25, always=r"^$", rule="a quantifier applies to the item before it"),
            seq(r"^(alt|seq)", None, rule="concatenation binds tighter than |"),
        ],
    },
    "C08": {
        "level": "proof",
        "explanation": AI + PROBES + " The expected numbers come from an independent reading of the pattern (lib/gen_shape.py).",
        "components": [shape(r"group|decomposition", rule="group n is the n-th opening parenthesis", share=60)],
    },
    "C11": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [quant(".", r"follows|preferred|possessive|longest|accepted|missing|match ends",
                             rule="bounds and order of preference of every quantifier")],
    },
    "C09": {
        "level": "proof",
        "explanation": AI + "the first byte of every match is compared with the derived set of first characters, and pairs of regexes "
                            "with a common first character (by the sets written in lib/gen_first.py) must not be independent.",
        "components": [first_characters(rule="matches start with derived first characters; what shares one is not independent")],
    },
    "C10": {
        "level": "proof",
        "explanation": AI + PROBES + " The leaves have narrow sets of first characters, so that the optimizer has something to decide; "
                            "what is expected is the behaviour of the pattern as written.",
        "components": [optimized(rule="a regex whose first-character sets overlap, are disjoint or follow something optional "
                                      "matches as written"),
                       leaves(("optB",), r"before or after|tried|ends|rejected", share=25,
                              rule="what follows an optional real leaf is tried"),
                       first_sets(rule="the sets of first characters the optimizer relies on contain every first character")],
    },
    "C12": {
        "level": "proof",
        "explanation": "Effect analysis: every function reachable from the public interface is walked in LLVM IR (calls out of the "
                       "module, allocation, exceptions, mutable globals, static variables, indirect calls, recursion, growing stack); "
                       "noexcept is witnessed by static assertions.",
        "components": [lambda tier: comp_effects.effects(tier, rule="no allocation, exception, global state, call out of the library, "
                                                                    "recursion; the documented functions are noexcept")],
    },
    "C13": {
        "level": "proof",
        "explanation": "Syntax rules over the instantiated functions of the library, and abstract interpretation of LLVM IR for the "
                       "positions they compute.",
        "components": [
            lambda tier: comp_effects.syntax(tier, rule="every function is constexpr and made of constructs with constant evaluation; "
                                                        "nothing asks whether it runs at compile time"),
            positions,
        ],
    },
    "C14": {
        "level": "proof",
        "explanation": "Type-level witnesses: every listed program has to pass the compiler's type checker on the current headers, with "
                       "the documented types; nothing is run.",
        "components": [lambda tier: comp_surface.surface(tier, rule="documented patterns and tokenizers compile, in every position, and "
                                                                    "their results have the documented interface")],
    },
    "C15": {
        "level": "proof",
        "explanation": "Compile-fail witnesses: of each pair of programs the correct one has to pass the type checker and the other has to "
                       "be rejected with an error.",
        "components": [lambda tier: comp_surface.misuse(tier, rule="a group that does not exist, a decomposition of the wrong size, tokens "
                                                                   "of different types, reversed ranges and malformed numbers are errors")],
    },
    "C32": {
        "level": "proof",
        "explanation": AI + PROBES + " The pattern is the expression the regex reports for the listed one; what is expected comes from "
                                     "the listed one.",
        "components": [reported(rule="the reported expression, used as a pattern, has the groups and the matches of the regex")],
    },
    "C16": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [tokens(labels=r"starts? |skipped|stops|at its end|exhausted|precede|not a separator|not a token|looked for|begin\(\)|copy|moved|"
                                     r"assigned|invalidated|increment|positions|ends where|found",
                              rule="where tokens start, what is between them, where tokenizing stops")],
    },
    "C17": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [tokens(labels=r"longest|type|found|arrow", rule="the longest token, the first declared on ties")],
    },
    "C18": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [leaves(("alt",), r"alternative", share=30, rule="the second alternative is tried exactly when the first, a real leaf, fails"),
                       seq(r"^(seq|alt|grp|opt)", r"sequence|alternative|optional|what follows|every part|rejected only",
                           rule="adjacent parts; the first alternative that matches")],
    },
    "C19": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [
            leaves(("grp",), GROUPS, share=20, rule="what a group around a real leaf reports"),
            seq(".", GROUPS, rule="what a group reports"),
            quant(r"operand|both|cap|group|bareop|bareboth", GROUPS, quick_share=20, rule="groups in and around a loop"),
        ],
    },
    "C20": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [seq(r"^(empty|progress)", None, rule="a repetition without progress ends the loop")],
    },
    "C21": {
        "level": "proof",
        "explanation": AI + PROBES,
        "components": [
            seq(r"anchor", None, rule="where ^ and $ hold"),
            search(r"anchor", r"\^", rule="^ during a search"),
        ],
    },
}
