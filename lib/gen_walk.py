"""Walks: ordinary patterns, matched and iterated over an arbitrary input through the public
interface.  Obligations: every read is inside the input; every view handed out is inside the
input, groups inside their match, matches disjoint and in order; the walk ends rejected."""
from gen_class import c_string
from sa import TU

PATTERNS = [
    r"abc", r"a+b", r"a*", r"a+?", r"a??b", r"a*+b", r"[a-z]+@[a-z]+\.com", r"(a*)(b|c)?x", r"(?:ab)*?c{2,3}", r"((a)b+)+|(c)", r"^a|b$",
    r"(\d+)-(\d+)-(\d+)", r"\d{4}", r"a{2,}b", r"(a|ab)(c|bcd)", r"\w+\s*=\s*\w+", r"^\s*(\w+)", r"\w+$", r"^$", r"$", r"^abc$",
    r"(?:a|b|c)+", r"(ab)+", r"(a+)+b", r"(a?)+", r"(a*)*?b", r"[^\n]*\n", r".*", r".+?x", r"(.)(.)", r"a|bc|def", r"abc|abd",
    r"\x41\x{4243}", r"\o{141}+", r"[^a-z]+", r"\D\S?\W", r"(a)|(b)|(c)", r"(?:(a)|b)*", r"((a)?(b)?)+c", r"x{0,2}y", r"(?:ab){2}", r"(?:ab|c){1,2}+d",
    r"hello world", r"\.\*\+", r"(?:a(?:b(?:c)?)?)?d", r"a?b?c?", r"(?:\d+\.)?\d+", r"\"[^\"]*\"", r"(https?)://([\w.]+)(/\w*)*", r"a{3}b{2}",
]

HEAD = r'''#include "sa.hpp"
#include "e_regex.hpp"
template<e_regex::static_string P> static inline void walk()
{
    const char *b = sa_begin(), *e = sa_end();
    using R = e_regex::regex<P>;
    auto m  = R::match(e_regex::literal_string_view<> {b, e});
    while (m)
    {
        const std::string_view v = m.to_view();
        const char *vb = v.data(), *ve = v.data() + v.size();
        sa_reach("accepted");
        sa_check("a match lies inside the input", vb >= b && vb <= ve && ve <= e);
        const auto inside = [&](std::string_view g) {
            return g.data() == nullptr ? g.size() == 0 : (g.data() >= vb && g.data() + g.size() <= ve && (long)g.size() >= 0);
        };
        if constexpr (R::groups > 0) sa_check("a group lies inside its match", inside(m.get_group(1)));
        if constexpr (R::groups > 1) sa_check("a group lies inside its match", inside(m[2]));
        if constexpr (R::groups > 2) sa_check("a group lies inside its match", inside(m.template get<3>()));
        const bool n = m.next();
        sa_check("next() tells whether there is a match", n == m.is_accepted());
        if (n)
        {
            const std::string_view w = m.to_view();
            sa_check("matches do not overlap and move forward", w.data() >= ve && w.data() > vb);
        }
    }
    sa_reach("exhausted");
    sa_check("an exhausted result is empty", m.to_view().empty());
    if constexpr (R::groups > 0) sa_check("the groups of an exhausted result are empty", m.get_group(1).empty());
    if constexpr (R::groups > 1) sa_check("the groups of an exhausted result are empty", m.get_group(2).empty());
    sa_check("an exhausted result stays exhausted", !m.next() && !m.is_accepted());
}
template<e_regex::static_string P> static inline void loop()
{
    const char *b = sa_begin(), *e = sa_end();
    const char* last = b;
    bool first       = true;
    for (std::string_view v: e_regex::regex<P>::match(e_regex::literal_string_view<> {b, e}))
    {
        sa_reach("accepted");
        sa_check("a match lies inside the input", v.data() >= b && v.data() + v.size() <= e);
        sa_check("matches do not overlap and move forward", first || v.data() >= last);
        last  = v.data() + v.size();
        first = false;
    }
    sa_reach("exhausted");
}
'''


def generate(select=None, shards=16, extra=()):
    E = []
    for i, p in enumerate(list(PATTERNS) + list(extra)):
        lab = c_string(p)
        E.append(("walk_%02d" % i, "walk", lab))
        if i % 3 == 0 and i != 48:
            E.append(("loop_%02d" % i, "loop", lab))
    E = [x for x in E if select is None or select(x[0])]
    tus = []
    for s in range(shards):
        part = E[s::shards]
        if part:
            tus.append(TU("walk%02d" % s,
                          HEAD + "\n".join('extern "C" void sa_entry_%s() { %s<"%s">(); }' % (n, f, l) for n, f, l in part),
                          {n: {"reach": ["accepted", "exhausted"], "what": l} for n, f, l in part}))
    return tus
