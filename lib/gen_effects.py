"""Users of the whole public interface over a corpus of patterns: the roots of the effect analysis
(tools/irscan.cpp) and of the syntax rules (tools/astscan.cpp).  Nothing here is ever run."""
from gen_class import c_string
from gen_walk import PATTERNS
from sa import TU

BOUNDS = ["*", "+", "?", "{3}", "{2,}", "{1,3}"]
OPERANDS = [r"a", r"[a-z]", r"\d", r"(a)", r"(?:ab)", r"(a|b)", r"(a*b?)", r"[^x]"]
ESCAPES = [r"\s", r"\S", r"\d", r"\D", r"\w", r"\W", r"\a", r".", r"\x4", r"\x41", r"\x{4142}", r"\o101", r"\o{101102}", r"\.", r"\\",
           r"\t\n\r\f", r"[a\]b]", r"[^\d\s]", r"[\w-]", r"$", r"^", r"^a$"]


def patterns():
    P = list(PATTERNS) + list(ESCAPES)
    for i, o in enumerate(OPERANDS):
        for j, b in enumerate(BOUNDS):
            for k, m in enumerate(["", "+", "?"]):
                if (i + j + k) % 2 == 0 or i < 2:
                    P.append(o + b + m + ["", "b", "a", r"\d", "(x|y)"][(i + 2 * j + k) % 5])
    return list(dict.fromkeys(P))


TOKENIZERS = [
    r'token {type::WORD, "[a-z]+"}, token {type::NUMBER, "\\d+"}, separator {"\\s"}',
    r'separator {"\\s+"}, separator {","}, token {type::WORD, "(a|b)*c"}, token {type::NUMBER, "\\d{2,4}?"}, token {type::OTHER, "\\+|-"}',
    r'token {type::OTHER, "."}, separator {"x*"}',
    r'token {type::NUMBER, "0x[0-9a-f]+"}, token {type::NUMBER, "[0-9]+"}, token {type::WORD, "\\w+"}, separator {"[ \t]+"}, separator {"#[^\n]*\n"}',
]

HEAD = r'''#include "e_regex.hpp"
enum class type { WORD, NUMBER, OTHER };
using e_regex::separator;
using e_regex::token;
template<typename T> inline unsigned long use(T v) { if constexpr (std::is_same_v<T, std::string_view>) return v.size() + (unsigned long)v.data(); else return (unsigned long)v; }
template<e_regex::static_string P> inline unsigned long regex_api(std::string_view in)
{
    constexpr e_regex::regex<P> matcher;
    auto m = matcher(in);
    unsigned long r = use(m.to_view()) + use(m[0]) + use(m.get_group(0)) + use(static_cast<std::string_view>(m)) + m.size() + m.groups()
                      + m.is_accepted() + static_cast<bool>(m) + use(*m) + use(m.template get<0>()) + matcher.groups;
    if constexpr (e_regex::regex<P>::groups > 0) r += use(m[1]) + use(m.get_group(1)) + use(m.template get<1>());
    if constexpr (e_regex::regex<P>::groups == 0) { auto [a] = matcher(in); r += use(a); }
    if constexpr (e_regex::regex<P>::groups == 1) { auto [a, b] = matcher(in); r += use(a) + use(b); }
    if constexpr (e_regex::regex<P>::groups == 2) { auto [a, b, c] = matcher(in); r += use(a) + use(b) + use(c); }
    while (m.next()) r += use(m.to_view());
    ++m;
    for (auto v: e_regex::regex<P>::match(in)) r += use(v);
    r += m != m.end();
    m = false;
    r += use(matcher.get_expression()) + matcher.is_independent(e_regex::regex<"a+b"> {}) + e_regex::regex<P>::template is_independent<e_regex::regex<"[^a]">>();
    return r;
}
template<e_regex::static_string P> struct promises
{
    using R = e_regex::regex<P>;
    using M = decltype(R::match(std::declval<e_regex::literal_string_view<>>()));
    static_assert(noexcept(R::match(std::declval<e_regex::literal_string_view<>>())), "promise: match() is noexcept");
    static_assert(noexcept(std::declval<const R&>()(std::declval<e_regex::literal_string_view<>>())), "promise: operator() is noexcept");
    static_assert(noexcept(std::declval<const M&>().to_view()), "promise: to_view() is noexcept");
    static_assert(noexcept(std::declval<const M&>().get_group(0)), "promise: get_group() is noexcept");
    static_assert(noexcept(std::declval<const M&>()[0]), "promise: operator[] is noexcept");
    static_assert(noexcept(std::declval<const M&>().template get<0>()), "promise: get<>() is noexcept");
    static_assert(noexcept(std::get<0>(std::declval<const M&>())), "promise: std::get<>() is noexcept");
    static_assert(noexcept(static_cast<std::string_view>(std::declval<const M&>())), "promise: the conversion to std::string_view is noexcept");
    static_assert(noexcept(static_cast<bool>(std::declval<const M&>())), "promise: the conversion to bool is noexcept");
    static_assert(noexcept(std::declval<const M&>().is_accepted()), "promise: is_accepted() is noexcept");
    static_assert(noexcept(std::declval<const M&>().size()), "promise: size() is noexcept");
    static_assert(noexcept(std::declval<const M&>().begin()), "promise: begin() is noexcept");
    static_assert(noexcept(std::declval<const M&>().end()), "promise: end() is noexcept");
    static_assert(noexcept(*std::declval<const M&>()), "promise: operator* is noexcept");
    static_assert(noexcept(++std::declval<M&>()), "promise: operator++ is noexcept");
    static_assert(noexcept(std::declval<const M&>() != std::declval<const M&>()), "promise: operator!= is noexcept");
    static_assert(noexcept(std::declval<M&>().next()), "promise: next() is noexcept");
    static_assert(noexcept(std::declval<M&>() = false), "promise: result = false is noexcept");
    static_assert(noexcept(M(std::declval<const M&>())), "promise: copying a result is noexcept");
    static_assert(noexcept(R::get_expression()), "promise: get_expression() is noexcept");
    static_assert(noexcept(R::template is_independent<R>()), "promise: is_independent() is noexcept");
    static_assert(noexcept(R::is_independent(R {})), "promise: is_independent() is noexcept");
};
template<typename T> inline unsigned long token_api(std::string_view in)
{
    constexpr T tokenizer {};
    auto it = tokenizer(in);
    unsigned long r = 0;
    for (auto t: it) r += use(std::string_view {t.value}) + (unsigned long)t.type;
    auto copy = it;
    while (it)
    {
        r += use(std::string_view {it->value}) + (unsigned long)(*it).type;
        ++it;
    }
    copy = it;
    r += copy == it;
    it.invalidate();
    return r + (it != it.end());
}
'''


def generate(shards=16, select=None):
    P = [p for p in patterns() if select is None or select(p)]
    out = []
    E = [("api_regex_%03d" % i, "regex_api<\"%s\">(in)" % c_string(p), p, True) for i, p in enumerate(P)]
    E += [("api_token_%d" % i, "token_api<e_regex::tokenization::tokenizer<%s>>(in)" % t, t, False) for i, t in enumerate(TOKENIZERS)]
    for s in range(shards):
        part = E[s::shards]
        if not part:
            continue
        text = HEAD
        for n, call, p, rx in part:
            text += 'extern "C" unsigned long %s(std::string_view in) { return %s; }\n' % (n, call)
            if rx:
                text += 'template struct promises<"%s">;\n' % c_string(p)
        out.append(TU("effects%02d" % s, text, {n: {"what": p} for n, _, p, _ in part}))
    return out
