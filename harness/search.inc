// The search for matches: the public match result over one probe.  A matches at chosen
// positions; the result must find the first of them, go on after it, and end.
ENTRY(leftmost, "A") // reach: found
{
    // A matches at g (ending at h) and nowhere before it
    START1("A")
    auto m = R::match({b, e});
    sa_reach("found");
    sa_check("a match is found whenever one exists", m.is_accepted() && static_cast<bool>(m));
    VIEW("the match starts at the first position where the pattern matches", m.to_view(), g, h);
    VIEW("group 0 is the whole match", m.get_group(0), g, h);
    VIEW("group 0 is the whole match", m[0], g, h);
    VIEW("group 0 is the whole match", m.template get<0>(), g, h);
    VIEW("a dereferenced result is the whole match", *m, g, h);
    VIEW("a converted result is the whole match", static_cast<e_regex::literal_string_view<>>(m), g, h);
}
ENTRY(leftmost_functor, "A") // reach: found
{
    START1("A")
    const R r {};
    auto m = r({b, e});
    sa_reach("found");
    sa_check("a match is found whenever one exists", m.is_accepted());
    VIEW("the match starts at the first position where the pattern matches", m.to_view(), g, h);
}
ENTRY(none, "A") // reach: end
{
    // A matches nowhere
    START0("A")
    auto m = R::match({b, e});
    sa_check("no match is reported when the pattern matches nowhere", !m.is_accepted() && !static_cast<bool>(m));
    sa_check("a rejected result is an empty view", m.to_view().empty());
    sa_check("group 0 of a rejected result is empty", m.get_group(0).empty() && m[0].empty());
    sa_check("a rejected result has no next match", !m.next() && !m.is_accepted() && m.to_view().empty());
    sa_reach("end");
}
ENTRY(none_group, "(A)") // reach: end
{
    START0("(A)")
    auto m = R::match({b, e});
    sa_check("no match is reported when the pattern matches nowhere", !m.is_accepted());
    sa_check("a rejected result is an empty view", m.to_view().empty());
    sa_check("the groups of a rejected result are empty", m.get_group(1).empty() && m[1].empty() && m.template get<1>().empty());
    sa_check("a rejected result has no next match", !m.next() && m.get_group(1).empty());
    sa_reach("end");
}
ENTRY(group, "(A)") // reach: found
{
    START1("(A)")
    auto m = R::match({b, e});
    sa_reach("found");
    VIEW("group 1 is what its parentheses matched", m.get_group(1), g, h);
    VIEW("group 1 is what its parentheses matched", m[1], g, h);
    VIEW("group 1 is what its parentheses matched", m.template get<1>(), g, h);
    auto [whole, first] = m;
    VIEW("group 0 is the whole match", whole, g, h);
    VIEW("group 1 is what its parentheses matched", first, g, h);
    VIEW("group 1 is what its parentheses matched", std::get<1>(m), g, h);
}
ENTRY(next_adjacent, "A") // reach: second
{
    // two matches: [g, h) and [g2, h2), g2 anywhere from h on; the first is not empty
    START2("A")
    sa_assume(h > g);
    auto m = R::match({b, e});
    const bool more = m.next();
    sa_reach("second");
    sa_check("a further match is found whenever one exists after the previous", more && m.is_accepted());
    VIEW("a further match is the first that starts at or after the end of the previous", m.to_view(), g2, h2);
}
ENTRY(next_after_empty, "A") // reach: second
{
    // the first match is empty: the next one starts after it
    START2("A")
    sa_assume(h == g);
    auto m = R::match({b, e});
    const bool more = m.next();
    sa_reach("second");
    sa_check("a further match is found whenever one exists after the previous", more && m.is_accepted());
    VIEW("after an empty match the next starts at least one character later", m.to_view(), g2, h2);
}
ENTRY(next_last, "A") // reach: end
{
    // one match only
    START1("A")
    sa_assume(h > g);
    auto m = R::match({b, e});
    const bool more = m.next();
    sa_check("iteration ends after the last match", !more && !m.is_accepted());
    sa_check("a rejected result is an empty view", m.to_view().empty() && m.get_group(0).empty());
    sa_check("an exhausted result stays exhausted", !m.next() && !m.is_accepted());
    sa_reach("end");
}
ENTRY(next_last_empty, "A") // reach: end
{
    START1("A")
    sa_assume(h == g);
    auto m = R::match({b, e});
    const bool more = m.next();
    sa_check("iteration ends after the last match", !more && !m.is_accepted());
    sa_check("a rejected result is an empty view", m.to_view().empty() && m.get_group(0).empty());
    sa_check("an exhausted result stays exhausted", !m.next() && !m.is_accepted());
    sa_reach("end");
}
ENTRY(next_last_group, "(A)|(Z)") // reach: end
{
    START1("(A)|(Z)")
    auto m = R::match({b, e});
    VIEW("group 1 is what its parentheses matched", m.get_group(1), g, h);
    sa_check("an unmatched group is empty", m.get_group(2).empty());
    const bool more = m.next();
    sa_check("iteration ends after the last match", !more && !m.is_accepted());
    sa_check("the groups of a rejected result are empty", m.get_group(1).empty() && m.get_group(2).empty());
    sa_reach("end");
}
ENTRY(next_groups, "(A)|(B)") // reach: second
{
    // the first match sets group 1 only, the second group 2 only
    START1("(A)|(B)")
    sa_assume(h > g); sa_assume(k >= h && l >= k && l <= e);
    auto m = R::match({b, e});
    // B matches at k only, at or after the end of the first match
    VIEW("group 1 is what its parentheses matched", m.get_group(1), g, h);
    sa_check("an unmatched group is empty", m.get_group(2).empty());
    const bool more = m.next();
    sa_reach("second");
    sa_check("a further match is found whenever one exists after the previous", more);
    sa_check("a group keeps nothing of the previous match", m.get_group(1).empty());
    VIEW("group 2 is what its parentheses matched", m.get_group(2), k, l);
}
ENTRY(third, "A") // reach: third
{
    // from any state of the iteration (two successive matches) the next one is found
    START3("A")
    auto m = R::match({b, e});
    m.next();
    const bool more = m.next();
    sa_reach("third");
    sa_check("a further match is found whenever one exists after the previous", more && m.is_accepted());
    VIEW("a further match is the first that starts at or after the end of the previous", m.to_view(), g3, h3);
}
ENTRY(increment, "A") // reach: second
{
    START2("A")
    sa_assume(h > g);
    auto m = R::match({b, e});
    ++m;
    sa_reach("second");
    sa_check("a further match is found whenever one exists after the previous", m.is_accepted());
    VIEW("an incremented result is the next match", m.to_view(), g2, h2);
}
ENTRY(begin_again, "A") // reach: again
{
    START2("A")
    sa_assume(h > g);
    auto m = R::match({b, e});
    m.next();
    auto f = m.begin();
    sa_reach("again");
    VIEW("begin() is the first match again", f.to_view(), g, h);
    VIEW("begin() leaves the result as it is", m.to_view(), g2, h2);
}
ENTRY(end_result, "A") // reach: end
{
    START1("A")
    sa_assume(h > g);
    auto m = R::match({b, e});
    auto f = m.end();
    sa_check("end() is not a match", !f.is_accepted() && f.to_view().empty());
    sa_check("a match differs from end()", m != f);
    VIEW("end() leaves the result as it is", m.to_view(), g, h);
    sa_reach("end");
}
ENTRY(range_for, "A") // reach: body, after
{
    // exactly the matches, in order, by range-for
    START1("A")
    sa_assume(h > g);
    int n = 0;
    for (auto v : R::match({b, e}))
    {
        sa_check("range-for visits every match once", n == 0);
        VIEW("range-for yields the matches", v, g, h);
        sa_reach("body");
        n++;
    }
    sa_check("range-for visits every match once", n == 1);
    sa_reach("after");
}
ENTRY(range_for_two, "A") // reach: first, second, after
{
    // exactly the matches, in order, by range-for; the second anywhere after the first
    START2("A")
    sa_assume(h > g);
    int n = 0;
    for (auto v : R::match({b, e}))
    {
        sa_check("range-for visits every match once", n < 2);
        if (n == 0) { VIEW("range-for yields the matches in order", v, g, h); sa_reach("first"); }
        else { VIEW("range-for yields the matches in order", v, g2, h2); sa_reach("second"); }
        n++;
    }
    sa_check("range-for visits every match once", n == 2);
    sa_reach("after");
}
ENTRY(range_for_adjacent, "A") // reach: first, second, after
{
    // the second match starts where the first ends
    START2("A")
    sa_assume(h > g && g2 == h);
    int n = 0;
    for (auto v : R::match({b, e}))
    {
        sa_check("range-for visits every match once", n < 2);
        if (n == 0) { VIEW("range-for yields the matches in order", v, g, h); sa_reach("first"); }
        else { VIEW("range-for yields the matches in order", v, g2, h2); sa_reach("second"); }
        n++;
    }
    sa_check("range-for visits every match once", n == 2);
    sa_reach("after");
}
ENTRY(range_for_empty, "A") // reach: body, after
{
    // one match, and it is empty
    START1("A")
    sa_assume(h == g);
    int n = 0;
    for (auto v : R::match({b, e}))
    {
        sa_check("range-for visits every match once", n < 1);
        VIEW("range-for yields the matches in order", v, g, h);
        sa_reach("body");
        n++;
    }
    sa_check("range-for visits every match once", n == 1);
    sa_reach("after");
}
ENTRY(range_for_none, "A") // reach: after
{
    START0("A")
    for (auto v : R::match({b, e}))
        sa_check("range-for visits nothing when there is no match", v.size() > v.size());
    sa_reach("after");
}
ENTRY(iterators, "A") // reach: end
{
    // the iterators of the result, by hand
    START2("A")
    sa_assume(h > g);
    auto m = R::match({b, e});
    auto it = m.begin();
    const auto last = m.end();
    sa_check("begin() differs from end() while there is a match", it != last);
    VIEW("range-for yields the matches in order", *it, g, h);
    ++it;
    sa_check("begin() differs from end() while there is a match", it != last);
    VIEW("range-for yields the matches in order", *it, g2, h2);
    ++it;
    sa_check("an iterator after the last match is end()", !(it != last));
    sa_reach("end");
}
ENTRY(assign, "A") // reach: end
{
    START1("A")
    sa_assume(h > g);
    auto m = R::match({b, e});
    m = false;
    sa_check("a result set to false is rejected and empty", !m.is_accepted() && m.to_view().empty());
    sa_check("a result set to false is rejected and empty", !static_cast<bool>(m) && m.get_group(0).empty() && m[0].empty() && m.template get<0>().empty() && (*m).empty());
    sa_reach("end");
}
ENTRY(assign_group, "(A)") // reach: end
{
    START1("(A)")
    sa_assume(h > g);
    auto m = R::match({b, e});
    m = false;
    sa_check("a result set to false is rejected and empty", !m.is_accepted() && m.to_view().empty());
    sa_check("a result set to false is rejected and empty", m.get_group(0).empty() && m[0].empty() && m.template get<0>().empty());
    sa_check("a result set to false is rejected and empty, in all its groups", m.get_group(1).empty() && m[1].empty() && m.template get<1>().empty());
    auto [whole, first] = m;
    sa_check("a result set to false is rejected and empty, in all its groups", whole.empty() && first.empty());
    sa_reach("end");
}
ENTRY(copy, "(A)") // reach: end
{
    START2("(A)")
    sa_assume(h > g);
    auto m = R::match({b, e});
    auto c = m;
    m.next();
    VIEW("a copy is independent of the original", c.to_view(), g, h);
    VIEW("a copy is independent of the original", c.get_group(1), g, h);
    VIEW("a further match is the first that starts at or after the end of the previous", m.to_view(), g2, h2);
    c.next();
    VIEW("a copy goes on like the original", c.to_view(), g2, h2);
    sa_reach("end");
}
ENTRY(start_anchor, "^A") // reach: end
{
    START1("^A")
    sa_assume(g > b);
    const P before = sa_pivot();
    sa_assume(before + 1 == g);
    sa_assume(*before != '\n');
    auto m = R::match({b, e});
    sa_check("^ holds only at the start of the input or of a line", !m.is_accepted());
    sa_reach("end");
}
ENTRY(start_anchor_line, "^A") // reach: end
{
    START1("^A")
    sa_assume(g > b);
    const P before = sa_pivot();
    sa_assume(before + 1 == g);
    sa_assume(*before == '\n');
    auto m = R::match({b, e});
    VIEW("^ holds at the start of every line", m.to_view(), g, h);
    sa_reach("end");
}
ENTRY(start_anchor_next, "^A") // reach: end
{
    START2("^A")
    sa_assume(g == b);
    const P before = sa_pivot();
    sa_assume(before + 1 == g2);
    sa_assume(*before != '\n');
    auto m = R::match({b, e});
    VIEW("the match starts at the first position where the pattern matches", m.to_view(), g, h);
    sa_check("^ holds only at the start of the input or of a line", !m.next() && !m.is_accepted());
    sa_reach("end");
}
ENTRY(start_anchor_next_line, "^A") // reach: end
{
    START2("^A")
    sa_assume(g == b);
    const P before = sa_pivot();
    sa_assume(before + 1 == g2);
    sa_assume(*before == '\n');
    auto m = R::match({b, e});
    VIEW("the match starts at the first position where the pattern matches", m.to_view(), g, h);
    sa_check("^ holds at the start of every line", m.next() && m.is_accepted());
    VIEW("^ holds at the start of every line", m.to_view(), g2, h2);
    sa_reach("end");
}
ENTRY(empty_input, "A") // reach: end
{
    START1("A")
    sa_assume(b == e);
    auto m = R::match({b, e});
    sa_check("a pattern that matches nothing is found in an empty input", m.is_accepted() && m.to_view().size() == 0);
    sa_check("iteration ends after the last match", !m.next());
    sa_reach("end");
}
#define ELEVEN "(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(A)"
ENTRY(wide_next, "(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(A)") // reach: second
{
    // as many groups as two digits number: each match sets the last one only
    START2(ELEVEN)
    sa_assume(h > g);
    auto m = R::match({b, e});
    VIEW("group 11 is what its parentheses matched", m.get_group(11), g, h);
    sa_check("an unmatched group is empty", m.get_group(1).empty() && m.get_group(9).empty() && m[10].empty());
    const bool more = m.next();
    sa_reach("second");
    sa_check("a further match is found whenever one exists after the previous", more && m.is_accepted());
    VIEW("a further match is the first that starts at or after the end of the previous", m.to_view(), g2, h2);
    VIEW("group 11 is what its parentheses matched", m[11], g2, h2);
    VIEW("group 11 is what its parentheses matched", m.template get<11>(), g2, h2);
    auto [w, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11] = m;
    VIEW("group 0 is the whole match", w, g2, h2);
    VIEW("group 11 is what its parentheses matched", m11, g2, h2);
    sa_check("an unmatched group is empty", m1.empty() && m2.empty() && m8.empty() && m9.empty() && m10.empty());
}
ENTRY(wide_last, "(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(Z)|(A)") // reach: end
{
    START1(ELEVEN)
    auto m = R::match({b, e});
    VIEW("group 11 is what its parentheses matched", m[11], g, h);
    const bool more = m.next();
    sa_check("iteration ends after the last match", !more && !m.is_accepted());
    sa_check("the groups of a rejected result are empty", m.get_group(1).empty() && m.get_group(10).empty() && m.get_group(11).empty());
    sa_reach("end");
}
ENTRY(wide_nested, "((((A))))") // reach: second
{
    START2("((((A))))")
    sa_assume(h > g);
    auto m = R::match({b, e});
    VIEW("group 4 is what its parentheses matched", m[4], g, h);
    const bool more = m.next();
    sa_reach("second");
    sa_check("a further match is found whenever one exists after the previous", more && m.is_accepted());
    VIEW("a further match is the first that starts at or after the end of the previous", m.to_view(), g2, h2);
    VIEW("group 1 is what its parentheses matched", m[1], g2, h2);
    VIEW("group 4 is what its parentheses matched", m[4], g2, h2);
}
ENTRY(large_first, "(A)") // reach: found
{
    // far from the start, and long
    START1("(A)")
    sa_assume(h == g + 256);
    auto m = R::match({b, e});
    sa_reach("found");
    sa_check("a match is found whenever one exists", m.is_accepted() && static_cast<bool>(m));
    VIEW("the match starts at the first position where the pattern matches", m.to_view(), g, h);
    VIEW("group 1 is what its parentheses matched", m.get_group(1), g, h);
    VIEW("group 1 is what its parentheses matched", m[1], g, h);
    VIEW("group 1 is what its parentheses matched", m.template get<1>(), g, h);
}
ENTRY(large_second, "(A)") // reach: second
{
    START2("(A)")
    sa_assume(h == g + 65536 && g2 == h && h2 == g2 + 256);
    auto m = R::match({b, e});
    VIEW("the match starts at the first position where the pattern matches", m.to_view(), g, h);
    const bool more = m.next();
    sa_reach("second");
    sa_check("a further match is found whenever one exists after the previous", more && m.is_accepted());
    VIEW("a further match is the first that starts at or after the end of the previous", m.to_view(), g2, h2);
    VIEW("group 1 is what its parentheses matched", m[1], g2, h2);
}
ENTRY(large_start, "A") // reach: found; depth: 2000
{
    // the first place where the pattern matches is 257 characters into the input
    START1("A")
    sa_assume(g == b + 257 && h == g + 1 && e == h);
    auto m = R::match({b, e});
    sa_reach("found");
    sa_check("a match is found whenever one exists", m.is_accepted());
    VIEW("the match starts at the first position where the pattern matches", m.to_view(), g, h);
    sa_check("iteration ends after the last match", !m.next() && !m.is_accepted());
}
