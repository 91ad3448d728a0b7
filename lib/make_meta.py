#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below (run by hand, output committed)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


AI = "abstract interpretation of LLVM IR (zones x byte sets) over probe leaves"
AIN = ("Every obligation is discharged for all inputs (of any length below 2^31-64) and, through probe leaves, for all leaf behaviours; "
       "the pattern shapes are enumerated. Trusted: clang 18's IR, the analyser's transfer functions. ")

prop("C01", "Matching and tokenizing read only bytes of the input",
     "Whatever the pattern and the input (empty, without terminator, cut anywhere), matching, iterating over matches and tokenizing read no byte before the first or after the last byte of the given view.",
     ["inputs", "programs"], "every input view, every documented pattern construct, every sequence of calls on a result",
     "Tests use literals that are followed by a terminator, so a read one past the end returns a harmless zero; no test cuts an input at every position for every construct.",
     ["src/terminals", "src/nodes", "src/match_result.hpp", "src/tokenization/iterator.hpp"],
     [("end-of-input test before every leaf", "src/terminals/common.hpp"), ("multi-character literals", "src/terminals/exact_matcher.hpp"),
      ("end anchor", "src/terminals/anchors/end.hpp"), ("search loop", "src/match_result.hpp")],
     "abstract interpretation of LLVM IR: bounds of every load", AIN)
prop("C02", "Reported matches, groups and tokens lie inside the input",
     "Every view handed out by an accepted result lies inside the input; every group that took part lies inside the whole match, and successive matches do not overlap and only move forward.",
     ["inputs", "programs", "histories"], "every input, every pattern, every number of calls to next()",
     "Tests compare a few views with expected text; they cannot show that no input yields a view that leaves the input or overlaps the previous match.",
     ["src/match_result.hpp", "src/nodes/group.hpp", "src/tokenization/iterator.hpp"],
     [("position bookkeeping of a result", "src/match_result.hpp"), ("group capture", "src/nodes/group.hpp")],
     "abstract interpretation of LLVM IR: relations between views and input", AIN)
prop("C03", "Search returns the leftmost match and next() visits all of them in order",
     "A search reports a match if and only if the pattern matches at some position, and reports the first such position; next() reports the first match that starts at or after the end of the previous one (one character later after an empty match), and iteration by next(), ++ or range-for ends after the last match.",
     ["inputs", "histories"], "every input, every set of positions at which the pattern matches, every number of iterations",
     "Tests sample a handful of inputs; a search that skips a position, retries one, or stops early shows only for particular gaps between failed and successful attempts.",
     ["src/match_result.hpp"],
     [("constructor and next()", "src/match_result.hpp"), ("begin/end/operator++/operator!=", "src/match_result.hpp")],
     AI, AIN)
prop("C04", "A failed attempt leaves no trace",
     "When a part of a pattern fails after some of it matched, whatever is tried next (another alternative, fewer or more repetitions, the next start position) begins at the same position and with the same groups as if the failed part had never been tried.",
     ["inputs", "programs", "histories"], "every input, every nesting of alternatives, groups and quantifiers, every point of failure",
     "Showing a leak needs a partial match of one alternative followed by a success of another; the tests have a few such inputs and no test looks at groups after them.",
     ["src/nodes/common.hpp", "src/nodes/basic.hpp", "src/nodes/group.hpp", "src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/possessive.hpp", "src/nodes/repeated.hpp", "src/match_result.hpp"],
     [("checkpoint and restore", "src/nodes/common.hpp"), ("restore after a failed branch", "src/nodes/basic.hpp"), ("clean start of an attempt", "src/match_result.hpp")],
     AI, AIN)
prop("C05", "A result without a match is empty and stays so",
     "A result that is not accepted converts to false and gives only empty views for the match and for every group, also after iteration is exhausted, for what end() gives, and after the result was set to false; a result that has run out of matches gives false again when asked for the next one.",
     ["inputs", "histories"], "every input without (further) match, every order of calls on the result",
     "Tests check a few rejected inputs right after construction, not the views of a result that had matches before.",
     ["src/match_result.hpp"], [("to_view, get_group, next", "src/match_result.hpp")], AI, AIN)
prop("C06", "Classes, escapes and literals accept exactly the documented characters",
     "Each class, negated class, bracket (with ranges, classes and escapes inside), hexadecimal or octal escape, escaped operator and plain literal matches one character for each of its parts, and exactly the bytes the documentation gives (0 to 255); at the end of the input it matches nothing.",
     ["inputs", "programs"], "all 256 byte values for every class, escape, bracket form and literal; every input length",
     "Tests try a few characters per class; a wrong boundary, sign or member shows only for particular bytes.",
     ["src/terminals", "src/operators/square_brackets.hpp", "src/operators/hex.hpp", "src/operators/octal.hpp", "src/nodes/negated.hpp"],
     [("leaf matchers", "src/terminals"), ("bracket members and ranges", "src/operators/square_brackets.hpp"), ("number escapes", "src/operators/hex.hpp")],
     "abstract interpretation of LLVM IR: byte sets compared with the documented ones", AIN)
prop("C07", "Operators bind as in ordinary regular expressions",
     "Concatenation binds tighter than |, a quantifier applies to the one character, bracket, escape or parenthesised item before it, and parentheses (capturing or not) make an item of what they contain, however deeply they nest.",
     ["programs", "inputs"], "every arrangement of items, groups, alternatives and quantifiers up to the enumerated size, on every input",
     "Tests contain a few dozen patterns; the parser is a set of templates whose specialisations interact, so a wrong one shows only for particular neighbours.",
     ["src/tree_builder", "src/operators", "src/utilities/split.hpp", "src/utilities/balanced.hpp", "src/tokenization/tokenizer.hpp"],
     [("splitting at |", "src/utilities/split.hpp"), ("operators attach to the last node", "src/operators"), ("parentheses", "src/operators/round_brackets.hpp")],
     AI, AIN)
prop("C08", "Groups are numbered by their opening parenthesis",
     "Group n is the n-th opening capturing parenthesis from the left, through nesting, alternatives, quantifiers, non-capturing groups, brackets and escapes; the reported number of groups, size() and the arity of a decomposition agree with it.",
     ["programs", "inputs"], "every arrangement of capturing and non-capturing groups and alternatives up to the enumerated size, on every input",
     "Tests number groups in a few patterns; the index is threaded through every operator of the parser.",
     ["src/operators/round_brackets.hpp", "src/operators", "src/nodes/group.hpp", "src/nodes/common.hpp", "src/tree_builder/tree_builder.hpp"],
     [("group index threaded through the parser", "src/tree_builder/tree_builder.hpp"), ("count of groups", "src/nodes/common.hpp")],
     AI, AIN)
prop("C09", "Regexes reported independent never start with the same character",
     "If two regexes are reported independent, no character can be the first one of a match of both; for that, the set of first characters derived for a regex contains every character one of its non-empty matches starts with.",
     ["inputs", "programs"], "all 256 first bytes, every documented construct and its combinations with optional and empty parts",
     "Tests ask for a few pairs; a set that misses a character only shows for that character, and then as a match that is lost elsewhere.",
     ["src/utilities/admitted_set.hpp", "src/nodes", "src/terminals", "src/regex.hpp"],
     [("set algebra", "src/utilities/admitted_set.hpp"), ("first characters of every node", "src/nodes"), ("is_independent", "src/regex.hpp")],
     "abstract interpretation of LLVM IR: first byte of every match against the derived set", AIN)
prop("C10", "Optimizations do not change what is matched",
     "A regex behaves as written: turning a greedy or lazy quantifier into a possessive one, or dropping a node, never changes whether, where and with which groups an input matches.",
     ["programs", "inputs"], "every quantifier mode and bound, what follows it (disjoint, overlapping, optional, after a group), every input",
     "Optimizations apply to particular combinations of first-character sets; the tests cover three combinations.",
     ["src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/basic.hpp", "src/regex.hpp"],
     [("conversion to possessive", "src/nodes/greedy.hpp"), ("conversion to possessive", "src/nodes/lazy.hpp"), ("fixed point", "src/regex.hpp")],
     AI, AIN)
prop("C11", "Quantifiers respect their bounds and their order of preference",
     "What follows a quantified item is tried only after an allowed number of repetitions; a greedy quantifier takes the largest, a lazy one the smallest number for which what follows matches, a possessive one the largest possible without giving back, and the match fails only if no allowed number works.",
     ["inputs", "programs"], "every mode, the bounds *, +, ?, {n}, {n,}, {n,m}, every number of repetitions available and every set of positions at which the rest matches, in every position of a pattern",
     "Tests pick a few repetition counts; an off-by-one at a bound or a lost backtracking step needs the right count together with the right continuation.",
     ["src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/possessive.hpp", "src/nodes/repeated.hpp", "src/operators/braces.hpp"],
     [("loops of the four quantifier nodes", "src/nodes"), ("bounds from the pattern", "src/operators/braces.hpp")], AI, AIN)
prop("C12", "Matching and tokenizing are noexcept and touch only their arguments",
     "Every documented function of a regex and of its results is noexcept; matching, iterating, inspecting and tokenizing throw nothing, allocate nothing, read and write no state but the regex object, the input and the result, call nothing outside the library and use an amount of stack that does not depend on the input, so that they may run concurrently without synchronisation.",
     ["inputs", "programs", "schedules"], "every pattern and tokenizer, every input, every number of threads",
     "A test cannot show that no input leads to an allocation, a throw or a shared variable; a static cache or a recursive helper behaves well in every single-threaded test.",
     ["src"], [("everything reachable from the public interface", "src/regex.hpp"), ("results", "src/match_result.hpp"), ("tokenizer", "src/tokenization/iterator.hpp")],
     "effect analysis over the call graph of LLVM IR; noexcept witnesses", "Every function reachable from the public interface, for a corpus of patterns that uses every construct. Trusted: clang 18's IR, tools/irscan.cpp. ")
prop("C13", "Whatever matches at run time can be matched at compile time",
     "Every function of the library can be evaluated in a constant expression, for every input: all of them are constexpr, none contains a construct a constant expression cannot evaluate or computes a position outside the input, and none behaves differently at compile time and at run time.",
     ["inputs", "programs"], "every pattern, every tokenizer, every input known at compile time",
     "Tests evaluate a few matches at compile time; a construct that is not constant fails only for the inputs that reach it.",
     ["src"], [("leaf matchers", "src/terminals"), ("nodes", "src/nodes"), ("results", "src/match_result.hpp"), ("tokenizer", "src/tokenization/iterator.hpp")],
     "rules over the instantiated syntax tree; abstract interpretation of LLVM IR for computed positions",
     "All function bodies instantiated for a corpus that uses every construct; positions for all inputs below 2^31-64. Trusted: clang 18, tools/astscan.cpp, tools/zoneai.cpp. ")
prop("C14", "Every documented pattern and tokenizer compiles with the documented interface",
     "A pattern made of documented items (characters, classes, escapes, brackets, groups, alternatives, anchors), each with any documented quantifier, in any position, compiles, and so does a tokenizer with any number of tokens and separators in any order; its results have the documented functions, conversions and types, iterate by range-for, and decompose into as many std::string_view as there are groups plus one.",
     ["programs"], "every item with every quantifier in every enumerated position; every enumerated tokenizer",
     "A test file that compiles shows that its own patterns compile; the parser is a set of partial specialisations, and one that is missing or ambiguous for a particular pair of neighbours only shows when somebody writes that pair.",
     ["src/regex.hpp", "src/match_result.hpp", "src/tokenizer.hpp", "src/tokenization", "src/tree_builder", "src/operators"],
     [("interface of a regex", "src/regex.hpp"), ("interface of a result", "src/match_result.hpp"), ("tokenizer", "src/tokenizer.hpp"), ("parser", "src/tree_builder")],
     "type-level witnesses: programs that must type-check, with static assertions on the documented types",
     "The enumerated programs. Trusted: clang 18's front end. ")
prop("C15", "Misuse is rejected by the compiler",
     "A program that asks for a group the pattern does not have, decomposes a result into the wrong number of variables, gives the tokens of one tokenizer types of different kinds, or contains a reversed range or a number escape with characters that are no digits does not compile, while the same program without the mistake does.",
     ["programs"], "every enumerated pair of a correct and a mistaken program",
     "A unit test cannot contain a program that does not compile.",
     ["src/match_result.hpp", "src/tokenizer.hpp", "src/terminals/range.hpp", "src/utilities/admitted_set.hpp", "src/operators/hex.hpp", "src/operators/octal.hpp"],
     [("group index", "src/match_result.hpp"), ("type of the tokens", "src/tokenizer.hpp"), ("order of a range", "src/utilities/admitted_set.hpp"), ("digits of a number", "src/utilities")],
     "compile-fail witnesses: pairs of programs, one of which must be rejected",
     "The enumerated pairs. Trusted: clang 18's front end. ")
prop("C16", "Tokens are contiguous and parsing stops where documented",
     "Each token starts exactly where the previous separator ended, and is followed by a separator or the end of the input; parsing stops at the end of the input, at text no token accepts, and after a token that no separator follows, and the iteration then yields nothing more.",
     ["inputs", "histories"], "every input, every set of token and separator lengths, every number of increments",
     "Tests tokenize three inputs; skipped text or a token reported without its separator needs particular inputs.",
     ["src/tokenizer.hpp", "src/tokenization/iterator.hpp", "src/tokenization/result.hpp", "src/tokenization/token.hpp"],
     [("advance over token and separator", "src/tokenization/iterator.hpp")], AI, AIN)
prop("C17", "The longest token wins, the first declared on ties",
     "At every position the tokenizer yields the token definition with the longest match, and among equally long ones the one declared first, with the text it matched and the type it was declared with.",
     ["inputs", "programs"], "every combination of match lengths of the definitions, every order of declaration",
     "Tests have definitions that never overlap.",
     ["src/tokenizer.hpp", "src/tokenization/iterator.hpp"], [("choice of the token", "src/tokenization/iterator.hpp")], AI, AIN)
prop("C18", "Sequences are adjacent and the first alternative that matches wins",
     "The parts of a sequence match one after the other without gap or overlap; alternatives are tried from left to right at the same position and the first that matches is taken; a sequence fails only if a part fails and alternatives only if all of them fail.",
     ["inputs", "programs"], "every outcome and every length of every part",
     "Tests sample inputs for a few alternations; order and adjacency show only when several alternatives match with different lengths.",
     ["src/nodes/basic.hpp", "src/nodes/common.hpp", "src/nodes/group.hpp"], [("depth-first search over children", "src/nodes/common.hpp")], AI, AIN)
prop("C19", "A group reports what its parentheses matched last",
     "After a match, a group reports exactly the text its parentheses matched, of the last repetition if it is repeated; a group that took no part in the match (another alternative was taken, no repetition happened) is empty.",
     ["inputs", "programs"], "every outcome and length of every part, every number of repetitions",
     "Tests check groups for a few inputs; stale or shifted captures need a particular backtracking history.",
     ["src/nodes/group.hpp", "src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/possessive.hpp", "src/nodes/repeated.hpp"],
     [("capture", "src/nodes/group.hpp"), ("repetition", "src/nodes/greedy.hpp")], AI, AIN)
prop("C20", "Repeating something that can be empty ends",
     "Matching ends for every pattern and input: a repetition that consumes nothing is not repeated without end, whatever the quantifier, and the pattern still matches as if the empty repetition had happened once.",
     ["inputs", "programs"], "every operand that can match nothing, every mode and bound, every input",
     "No test repeats an operand that can be empty; a failure is an endless loop.",
     ["src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/possessive.hpp"], [("end of a loop without progress", "src/nodes")], AI, AIN)
prop("C21", "Anchors hold only at the ends of lines and of the input",
     "^ at the start of a pattern or of an alternative holds at the start of the input and right after a line feed and nowhere else, also while searching further, for everything it precedes, and consumes nothing; $ at its end holds at the end of the input or at a line feed and nowhere else, and consumes nothing at the end of the input.",
     ["inputs", "programs"], "every position of every input, every byte before or at the position",
     "Tests anchor a few literal inputs of one line; the search restarts at every position.",
     ["src/terminals/anchors", "src/operators/start_anchor.hpp", "src/operators/end_anchor.hpp"],
     [("anchor leaves", "src/terminals/anchors")], AI, AIN)

prop("C32", "The reported expression denotes the regex it was derived from",
     "The expression a regex reports is itself a pattern: the regex made of it has the same number of groups and matches the same inputs at the same places with the same groups.",
     ["programs", "inputs"], "every enumerated pattern (classes, escapes, brackets, shapes, quantifiers, with optimizations), every input",
     "Tests compare three expressions with expected text; whether the text means the same as the regex depends on how its parts are delimited and escaped, for every combination of parts.",
     ["src/nodes/get_expression.hpp", "src/nodes", "src/terminals", "src/regex.hpp"],
     [("delimiting of the parts", "src/nodes/get_expression.hpp"), ("expression of every node", "src/nodes"), ("escaping of literals", "src/terminals/exact_matcher.hpp")],
     "abstract interpretation of LLVM IR: the obligations of the pattern as written, imposed on the regex of its reported expression", AIN)

NA = "static analysis does not reach it here: "
prop("C30", "A pattern matches exactly the language of its regular expression",
     "An input is accepted if and only if some way of matching the pattern exists, including those that need going back into an alternative or into a finished repetition.",
     ["inputs", "programs"], "every pattern and input",
     "Language equivalence quantifies over all inputs.",
     ["src/nodes"], [("backtracking", "src/nodes")],
     na="by design the library does not go back into a chosen alternative or into a finished repetition of a group, so the statement is false as it stands (a documented simplification of the engine, not a defect a check should flag); the parts that do hold are C07, C11, C18 and C19")
prop("C31", "Matching time is bounded by the size of the input",
     "Matching needs time at most polynomial in the length of the input.",
     ["inputs", "programs"], "every pattern and input", "Benchmarks sample inputs.",
     ["src/nodes"], [("loops", "src/nodes")],
     na="a bound on running time is a quantity of the execution; greedy repetition replays its operand, so no loop bound is derivable from the source without unfolding runs (termination itself is C20)")
def main():
    from registry import CHECKS
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
            }) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        if p["pid"] in CHECKS:
            m["checks"].append({
                "property": p["pid"],
                "quick_cmd": "python3 lib/check.py %s quick" % p["pid"],
                "thorough_cmd": "python3 lib/check.py %s thorough" % p["pid"],
                "technique": p["technique"], "level": CHECKS[p["pid"]]["level"], "level_note": p["note"].strip(),
            })
        else:
            m["not_applicable"].append({"property": p["pid"], "reason": p["na"] or "no check yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
