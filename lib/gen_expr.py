"""The reported expression, used as a pattern again: the obligations other generators derive from
a pattern as written, imposed on regex<E> where E is what get_expression() reports for it."""
import re

import gen_class
import gen_opt
import gen_quant
import gen_shape
from sa import TU

HELP = '''#include "e_regex.hpp"
template<e_regex::static_string P> constexpr auto sa_reported()
{
    using R = e_regex::regex<P>;
    std::array<char, R::get_expression().size()> text {};
    for (std::size_t i = 0; i < text.size(); i++) text[i] = R::get_expression()[i];
    e_regex::static_string<text.size()> result {text};
    return result;
}
template<e_regex::static_string P> struct sa_again
{
    using type = e_regex::regex<sa_reported<P>()>;
    static_assert(type::groups == e_regex::regex<P>::groups, "the reported expression has as many groups as the regex");
};
'''
# the same, without probes: for a pattern whose reported expression does not compile
PLAIN = HELP.replace("%", "%%") + '''auto f(std::string_view s)
{
    return sa_again<"%s">::type::match(s).is_accepted();
}
'''
USE = re.compile(r'(typename )?e_regex::regex<("(?:[^"\\]|\\.)*")>')


def again(tu, what):
    text, n = USE.subn(r"typename sa_again<\2>::type", tu.text)
    assert n or not tu.entries
    # after the probes: they are the leaves of the patterns
    i = text.rindex("#include")
    i = text.index("\n", i) + 1
    return TU(what + tu.name, text[:i] + HELP + text[i:], tu.entries, tu.includes)


def generate(full=False, pick=lambda n, share: True):
    # the loops whose finding is recorded for the pattern as written are not the expression's concern
    loop = lambda share: lambda n: not n.startswith("tail") and ("long_plain" in n or pick(n, share))
    tus = gen_class.generate(None, 10, None, ("whole",))
    tus += gen_shape.generate(lambda n: full or "_f" in n or pick(n, 12), 12, count=400 if full else 120)
    tus += gen_quant.generate(loop(40 if full else 5), 8)
    tus += gen_opt.generate(loop(40 if full else 4), 4 if full else 1)
    return [again(t, "expr_") for t in tus]
