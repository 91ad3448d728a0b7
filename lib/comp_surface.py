"""Type-level witnesses: programs that must compile (C14) and programs that must not (C15).

Nothing is run or evaluated beyond what the compiler needs to type-check the program
(-fsyntax-only); the templates are those of /repo's current headers."""
import concurrent.futures
import itertools
import re
import subprocess
import tempfile
import time

import sa
from gen_class import c_string
from report import Part

ITEMS = [r"a", r"\d", r"\W", r".", r"[a-c_]", r"[^a-c\d]", r"\x41", r"\x{4142}", r"\o101", r"\.", r"(ab)", r"(?:ab|c)", r"(a|(b)c)", r"(?:(a)?b)",
         r"[+*]", r"\s", r"\\", r"\o{101102}", r"\x4", r"((a))", r"\n", r"[\w.-]"]
QUANTIFIERS = [""] + [q + m for q in ("*", "+", "?", "{2,}", "{1,3}", "{0,1}", "{10,12}") for m in ("", "?", "+")] + ["{3}", "{1}", "{12}"]
CONTEXTS = ["%s", "x%s", "%sx", "(%s)", "(?:%s|y)z", "^%s$", "%s%s2", "[a-f]%s\\d", "(?:x%s)+", "(x|%s)?y", "%s%sa"]

HEAD = r'''#include "e_regex.hpp"
#include <concepts>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
template<typename T> concept view = std::same_as<std::remove_cvref_t<T>, std::string_view>;
template<typename T> concept truth = std::same_as<std::remove_cvref_t<T>, bool>;
template<e_regex::static_string P> struct surface
{
    using R = e_regex::regex<P>;
    static constexpr R matcher {};
    using M = decltype(std::declval<const R&>()(std::declval<std::string_view>()));
    static_assert(std::same_as<M, decltype(R::match(std::declval<std::string_view>()))>, "surface: operator() and match() give the same result type");
    static_assert(requires { matcher("text"); R::match("text"); }, "surface: a string literal is an input");
    static_assert(view<decltype(std::declval<const M&>().to_view())>, "surface: to_view() is a std::string_view");
    static_assert(view<decltype(std::declval<const M&>()[0])>, "surface: operator[] is a std::string_view");
    static_assert(view<decltype(std::declval<const M&>().get_group(0))>, "surface: get_group() is a std::string_view");
    static_assert(view<decltype(std::declval<const M&>().template get<0>())>, "surface: get<>() is a std::string_view");
    static_assert(view<decltype(std::declval<const M&>().template get<R::groups>())>, "surface: get<>() of the last group is a std::string_view");
    static_assert(view<decltype(*std::declval<const M&>())>, "surface: operator* is a std::string_view");
    static_assert(view<decltype(static_cast<std::string_view>(std::declval<const M&>()))>, "surface: a result converts to std::string_view");
    static_assert(truth<decltype(std::declval<const M&>().is_accepted())>, "surface: is_accepted() is a bool");
    static_assert(truth<decltype(static_cast<bool>(std::declval<const M&>()))>, "surface: a result converts to bool");
    static_assert(truth<decltype(std::declval<M&>().next())>, "surface: next() is a bool");
    static_assert(truth<decltype(std::declval<const M&>() != std::declval<const M&>())>, "surface: results compare");
    static_assert(std::convertible_to<decltype(std::declval<const M&>().size()), unsigned>, "surface: size() is a number");
    static_assert(std::convertible_to<decltype(M::groups()), unsigned>, "surface: groups() is a number");
    static_assert(std::same_as<decltype(++std::declval<M&>()), M&>, "surface: ++ gives the result");
    static_assert(std::same_as<decltype(std::declval<M&>() = false), M&>, "surface: a result can be set to false");
    static_assert(std::copyable<M>, "surface: a result can be copied and assigned");
    static_assert(std::same_as<M, std::remove_cvref_t<decltype(std::declval<const M&>().begin())>>, "surface: begin() is a result");
    static_assert(std::same_as<M, std::remove_cvref_t<decltype(std::declval<const M&>().end())>>, "surface: end() is a result");
    static_assert(view<decltype(R::get_expression())> && view<decltype(matcher.get_expression())>, "surface: get_expression() is a std::string_view");
    static_assert(std::integral<std::remove_cvref_t<decltype(R::groups)>>, "surface: groups is a number");
    static_assert(std::tuple_size<M>::value == R::groups + 1, "surface: a result decomposes into the match and its groups");
    template<std::size_t... n> static constexpr bool elements(std::index_sequence<n...>)
    {
        return (... && (view<std::tuple_element_t<n, M>> && view<decltype(std::get<n>(std::declval<const M&>()))>));
    }
    static_assert(elements(std::make_index_sequence<R::groups + 1> {}), "surface: the decomposed parts are std::string_view");
    static_assert(truth<decltype(R::template is_independent<R>())> && truth<decltype(R::is_independent(R {}))>, "surface: is_independent() is a bool");
    using constant = std::bool_constant<R::template is_independent<e_regex::regex<"a+b">>()>;
    static_assert(requires { typename std::integral_constant<unsigned, R::groups>; }, "surface: groups is a constant");
    static void use(std::string_view in)
    {
        for (auto v: R::match(in)) static_assert(view<decltype(v)>, "surface: range-for gives std::string_view");
        const auto r = matcher(in);
        if (r) { auto copy = r; ++copy; copy.next(); copy = r; copy = false; }
        (void)r.size(); (void)r[0]; (void)r.get_group(0);
        if constexpr (R::groups == 0) { auto [m] = R::match(in); static_assert(view<decltype(m)>); }
        if constexpr (R::groups == 1) { auto [m, a] = R::match(in); static_assert(view<decltype(a)>); }
        if constexpr (R::groups == 2) { auto [m, a, b] = R::match(in); static_assert(view<decltype(b)>); }
        if constexpr (R::groups == 3) { auto [m, a, b, c] = R::match(in); static_assert(view<decltype(c)>); }
    }
};
enum class kind { WORD, NUMBER, OTHER };
using e_regex::separator;
using e_regex::token;
template<typename T> struct token_surface
{
    static constexpr T tokenizer {};
    using I = decltype(std::declval<const T&>()(std::declval<std::string_view>()));
    static_assert(std::same_as<std::remove_cvref_t<decltype((*std::declval<const I&>()).type)>, kind>, "surface: a token has its type");
    static_assert(std::convertible_to<decltype((*std::declval<const I&>()).value), std::string_view>, "surface: the value of a token is a view");
    static_assert(std::same_as<std::remove_cvref_t<decltype(std::declval<const I&>()->type)>, kind>, "surface: -> reaches the token");
    static_assert(std::same_as<decltype(++std::declval<I&>()), I&>, "surface: ++ gives the iterator");
    static_assert(std::constructible_from<bool, const I&>, "surface: an iterator converts to bool");
    static_assert(std::copyable<I>, "surface: an iterator can be copied and assigned");
    static_assert(truth<decltype(std::declval<const I&>() == std::declval<const I&>())> && truth<decltype(std::declval<const I&>() != std::declval<const I&>())>, "surface: iterators compare");
    static void use(std::string_view in)
    {
        auto res = tokenizer(in);
        for (auto t: res) static_assert(std::same_as<std::remove_cvref_t<decltype(t.type)>, kind>, "surface: range-for gives tokens");
        for (auto t: tokenizer("a 1")) (void)t.value;
        while (res) ++res;
    }
};
'''
DEFS = [r'token {kind::WORD, "[a-z]+"}', r'token {kind::NUMBER, "\\d+"}', r'token {kind::OTHER, "(a|b)*c"}', r'token {kind::OTHER, "."}',
        r'token {kind::WORD, "\"[^\"]*\""}', r'token {kind::NUMBER, "0x[0-9a-f]{1,8}"}']
SEPS = [r'separator {"\\s"}', r'separator {" "}', r'separator {"[ \t]*,?"}', r'separator {"#[^\n]*\n"}']


def patterns(full):
    out = []
    for i, it in enumerate(ITEMS):
        for j, q in enumerate(QUANTIFIERS):
            for k, c in enumerate(CONTEXTS):
                if full or (i * 7 + j * 3 + k * 5) % 11 == 0 or k == 0 and (i + j) % 4 == 0:
                    out.append(c % ((it + q,) * c.count("%s")))
    return list(dict.fromkeys(out))


def tokenizers(full):
    out = []
    for n, s in itertools.product((1, 2, 3), (1, 2)):
        for i, d in enumerate(itertools.permutations(DEFS, n)):
            if not (full and i % 3 == 0 or i % 23 == n):
                continue
            seps = [SEPS[(i + j) % len(SEPS)] for j in range(s)]
            parts = list(d) + seps if i % 2 else seps[:1] + list(d) + seps[1:]
            out.append(", ".join(parts))
    return out


FLAGS = ["-ftemplate-depth=4096", "-fconstexpr-steps=100000000", "-fbracket-depth=4096", "-Wno-everything"]


def compiles(text, pre=()):
    try:
        r = subprocess.run([sa.CLANG] + sa.BASE_FLAGS + FLAGS + list(pre) + ["-fsyntax-only", "-ferror-limit=6", "-x", "c++", "-"],
                           input=text, capture_output=True, text=True, timeout=240,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (6 << 30, 6 << 30)))
    except subprocess.TimeoutExpired:
        return None, ["time ran out"]
    if r.returncode == 0:
        return True, []
    errs = [e for e in r.stderr.splitlines() if " error: " in e]
    if not errs or r.returncode != 1:
        return None, [sa.short(r.stderr, 300)]
    return False, [sa.short(e, 260) for e in errs]


def rel(e):
    return e.replace(sa.REPO + "/", "").replace("/repo/", "")


def surface_failures(units, head, pre):
    def job(unit):
        ok, err = compiles(head + "\n".join(l for _, l in unit) + "\n", pre)
        if ok:
            return []
        bad = []
        for what, line in unit:
            ok, err = compiles(head + line + "\n", pre)
            if ok is False:
                bad.append((what, err))
            if len(bad) > 3:
                break
        return bad or [(None, err)]
    with concurrent.futures.ThreadPoolExecutor(sa.JOBS) as pool:
        return [b for bs in pool.map(job, units) for b in bs]


def surface(tier="quick", rule=""):
    part = Part("programs that must compile")
    part.rules = [rule]
    part.trusted = ["clang 18 front end"]
    t0 = time.time()
    full = tier == "thorough"
    uses = [("pattern \"%s\"" % p, 'template struct surface<"%s">;' % c_string(p)) for p in patterns(full)]
    uses += [("tokenizer <%s>" % t, "template struct token_surface<e_regex::tokenization::tokenizer<%s>>;" % t) for t in tokenizers(full)]
    asserts = HEAD.count("static_assert")
    size = 24
    units = [uses[i:i + size] for i in range(0, len(uses), size)]
    base, err = compiles(HEAD)
    if not base:
        raise sa.Broken("the interface witnesses do not compile: " + "; ".join(err))
    with tempfile.TemporaryDirectory(prefix="sa-") as tmp:
        pre = sa.precompile(tmp, FLAGS, HEAD)
        failed = surface_failures(units, "" if pre else HEAD, pre)
    for what, err in failed:
        if what is None:
            part.undecided.append("programs that compile one by one, but not together: " + "; ".join(err)[:300])
            continue
        said = next((m.group(1) for e in err for m in [re.search(r"surface: (.*?)\"?$", e)] if m), None)
        here = next((rel(e) for e in err if "/src/" in e), rel(err[0]))
        part.violations.append({"key": "surface:" + what, "what": "%s: %s" % (what, said or "does not compile"), "where": here,
                                "detail": "; ".join(rel(e) for e in err)[:400]})
    part.obligations = len(uses)
    part.discharged = len(uses) - len(failed)
    part.counters = {"programs": len(uses), "translation_units": len(units), "static_assertions_per_program": asserts,
                     "wall_s": round(time.time() - t0, 1)}
    part.samples = [{"program": w, "rule": "compiles, with the documented types"} for w, _ in uses[::max(1, len(uses) // 8)]]
    return part


GROUPED = [("ab", 0), ("(a)b", 1), ("(a)|(b)", 2), ("((a)b)+(c)?", 3), ("(?:x(a)|(?:b))*", 1), ("(a)(b)(c)(d)", 4), ("[(]a*", 0), (r"\(a(b)", 1),
           ("(a|(b|(c)))", 3)]
F = "auto f(std::string_view s) { %s }\n"
NAMES = "abcdefghij"


def witnesses(full):
    """(what, program that compiles, program that does not)"""
    out = []
    for p, g in GROUPED:
        r = 'e_regex::regex<"%s">::match(s)' % c_string(p)
        for d in (1, 2, 7) if full else (1, 2):
            out.append(("get<%d>() of \"%s\", which has %d groups" % (g + d, p, g), F % ("return %s.get<%d>();" % (r, g)), F % ("return %s.get<%d>();" % (r, g + d))))
        out.append(("std::get<%d>() of \"%s\", which has %d groups" % (g + 1, p, g), F % ("return std::get<%d>(%s);" % (g, r)),
                    F % ("return std::get<%d>(%s);" % (g + 1, r))))
        out.append(("get<%d>() of a constant result of \"%s\", which has %d groups" % (g + 1, p, g), F % ("const auto m = %s; return m.get<%d>();" % (r, g)),
                    F % ("const auto m = %s; return m.get<%d>();" % (r, g + 1))))
        good = F % ("auto [%s] = %s; return a;" % (", ".join(NAMES[:g + 1]), r))
        for n in sorted({g, g + 2, g + 3, 1} - {0, g + 1}):
            out.append(("decomposing the result of \"%s\" (%d groups) into %d variables" % (p, g, n), good,
                        F % ("auto [%s] = %s; return a;" % (", ".join(NAMES[:n]), r))))
    head = "enum class A { X, Z }; enum class B { Y }; enum C { C1, C2 }; enum D { D1 }; "
    tok = head + F % "constexpr e_regex::tokenization::tokenizer<%s> t; return static_cast<bool>(t(s));"
    T = lambda e, p: 'e_regex::token {%s, "%s"}' % (e, p)
    S = 'e_regex::separator {" "}'
    for good, bad in [((T("A::X", "a"), T("A::Z", "b"), S), (T("A::X", "a"), T("B::Y", "b"), S)),
                      ((S, T("A::X", "a"), T("A::Z", "b")), (S, T("A::X", "a"), T("B::Y", "b"))),
                      ((T("A::X", "a"), S, T("A::Z", "b")), (T("A::X", "a"), S, T("B::Y", "b"))),
                      ((T("A::X", "a"), T("A::Z", "b"), T("A::Z", "c"), S), (T("A::X", "a"), T("A::Z", "b"), T("B::Y", "c"), S)),
                      ((T("A::X", "a"), T("A::Z", "b"), T("A::X", "c"), S), (T("A::X", "a"), T("B::Y", "b"), T("A::X", "c"), S)),
                      ((T("B::Y", "a"), T("B::Y", "b"), T("B::Y", "c"), S), (T("B::Y", "a"), T("A::X", "b"), T("A::X", "c"), S)),
                      ((T("A::X", "a"), S), (T("A::X", "a"), S, "3")), ((T("A::X", "a"), S), ("A::X", T("A::X", "a"), S)),
                      ((T("A::X", "a"), S), (T("A::X", "a"), T("0", "b"), S)),
                      ((T("1", "a"), S, T("2", "b")), (T("1", "a"), S, T("'c'", "b"))),
                      ((T("1", "a"), T("2", "b"), T("3", "c"), S), (T("1", "a"), T("2u", "b"), T("3", "c"), S)),
                      ((T("1", "a"), T("2", "b"), T("3", "c"), S), (T("1", "a"), T("2", "b"), T("true", "c"), S)),
                      ((T("C1", "a"), S, T("C2", "b")), (T("C1", "a"), S, T("D1", "b"))),
                      ((T("C1", "a"), S, T("C2", "b")), (T("1", "a"), S, T("C2", "b")))]:
        out.append(("a tokenizer of <%s>" % ", ".join(bad), tok % ", ".join(good), tok % ", ".join(bad)))
    rx = lambda p: F % ('constexpr e_regex::regex<"%s"> m; return m(s).is_accepted();' % c_string(p))
    for good, bad in [("[a-b]", "[b-a]"), ("x[_a-c]y", "x[_c-a]y"), ("[^a-c]", "[^c-a]"), ("[0-9a-b]", "[0-9b-a]"), (r"[\d8-9]", r"[\d9-8]"),
                      ("([a-c])+", "([c-a])+"), (r"\x{4f}", r"\x{4g}"), (r"\x{4f50}", r"\x{4f5z}"), (r"a\x{ab}b", r"a\x{Gb}b"),
                      (r"\x{ab}", r"\x{-1}"), (r"\x{4}", r"\x{g}"), (r"\x{4f}", r"\x{g4}"), (r"\x{4f4f}", r"\x{4fg4}"),
                      (r"(a|\x{4f4f41})+", r"(a|\x{4f4f4g})+"), (r"\o{101102103}", r"\o{101182103}"), (r"(\o{101}|b)", r"(\o{109}|b)"),
                      ("[A-Z]", "[Z-A]"), ("[ -~]", "[~- ]"), ("(?:x|[0-4])*", "(?:x|[4-0])*"), ("[^_0-4]", "[^_4-0]"), (r"\o{101}", r"\o{108}"), (r"\o{101}", r"\o{901}"), (r"\o{101102}", r"\o{101192}"), (r"\o{101}", r"\o{1a1}")]:
        out.append(("the pattern \"%s\"" % bad, rx(good), rx(bad)))
    return out


def misuse(tier="quick", rule=""):
    part = Part("programs that must not compile")
    part.rules = [rule]
    part.trusted = ["clang 18 front end"]
    t0 = time.time()
    W = witnesses(tier == "thorough")
    with tempfile.TemporaryDirectory(prefix="sa-") as tmp:
        pre = sa.precompile(tmp, FLAGS)
        return judged(part, W, "" if pre else sa.PRE, pre, t0)


def judged(part, W, head, pre, t0):
    def job(w):
        ok, err = compiles(head + w[1], pre)
        if not ok:
            return w, "good", err
        ok, err = compiles(head + w[2], pre)
        return w, {True: "accepted", False: "rejected", None: "unknown"}[ok], err
    reasons = {}
    with concurrent.futures.ThreadPoolExecutor(sa.JOBS) as pool:
        for w, verdict, err in pool.map(job, W):
            part.obligations += 1
            if verdict == "rejected":
                part.discharged += 1
                e = rel(err[0])
                reasons[w[0]] = e
            elif verdict == "accepted":
                part.violations.append({"key": "accepted:" + w[0], "what": "%s compiles" % w[0], "where": "the witness \"%s\"" % sa.short(w[2], 160),
                                        "detail": "nothing in src rejects it"})
            elif verdict == "good":
                part.violations.append({"key": "good:" + w[0], "what": "the correct form of \"%s\" does not compile" % w[0],
                                        "where": rel(err[0]), "detail": sa.short(w[1], 160)})
            else:
                part.undecided.append("%s: %s" % (w[0], "; ".join(err)))
    part.counters = {"pairs_of_programs": len(W), "wall_s": round(time.time() - t0, 1)}
    part.samples = [{"program": k, "rejected_by": v} for k, v in list(reasons.items())[::max(1, len(reasons) // 10)]]
    return part
