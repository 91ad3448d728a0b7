// The tokenizer over probe tokens and separators.
#define LONGEST "the token is the longest match at its position, the first declared on ties"
#define FIRST_AT "the first token starts at the start of the input"
#define SEP_AT "a token starts where the separator before it ends"
#define STOP_TEXT "tokenizing stops where no token matches"
#define STOP_SEP "tokenizing stops after a token that no separator follows"
#define STOP_END "tokenizing stops at the end of the input"
#define STAYS "an exhausted tokenizer stays exhausted"
ENTRY(first_single, "A / S") // reach: end
{
    START
    using T = e_regex::tokenization::tokenizer<token {kind::FIRST, "A"}, separator {"S"}>;
    sa_assume(A0 > b && A0 <= e && S0 > e);
    auto it = T::match({b, e});
    TOKEN(FIRST_AT, it, b, A0, kind::FIRST)
    sa_check("a tokenizer that has a token is not at its end", it != it.end() && !(it == it.end()) && it.end() != it && !(it.end() == it));
    sa_check("the arrow operator gives the same token", it->value.begin() == b && it->value.end() == A0 && it->type == kind::FIRST);
    sa_reach("end");
}
ENTRY(functor, "A / S") // reach: end
{
    START
    const e_regex::tokenization::tokenizer<token {kind::SECOND, "A"}, separator {"S"}> t {};
    sa_assume(A0 > b && A0 <= e && S0 > e);
    auto it = t(std::string_view {b, static_cast<std::size_t>(e - b)});
    TOKEN(FIRST_AT, it, b, A0, kind::SECOND)
    sa_reach("end");
}
ENTRY(no_separators_first, "S / A: separator declared first") // reach: end
{
    START
    using T = e_regex::tokenization::tokenizer<separator {"S"}, token {kind::FIRST, "A"}>;
    sa_assume(A0 > b && A0 <= e && S0 > e);
    auto it = T::match({b, e});
    TOKEN(FIRST_AT, it, b, A0, kind::FIRST)
    sa_reach("end");
}
#define TWO e_regex::tokenization::tokenizer<token {kind::FIRST, "A"}, token {kind::SECOND, "B"}, separator {"S"}, separator {"U"}>
#define MIXED e_regex::tokenization::tokenizer<separator {"S"}, token {kind::SECOND, "B"}, separator {"U"}, token {kind::FIRST, "A"}>
#define THREE e_regex::tokenization::tokenizer<token {kind::FIRST, "A"}, token {kind::SECOND, "B"}, separator {"S"}, token {kind::THIRD, "D"}>
ENTRY(longest_first, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 > b && A0 <= e && B0 >= b && B0 < A0 && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::FIRST)
    sa_reach("end");
}
ENTRY(longest_second, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 >= b && B0 <= e && B0 > A0 && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    TOKEN(LONGEST, it, b, B0, kind::SECOND)
    sa_reach("end");
}
ENTRY(longest_tie, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 > b && A0 <= e && B0 == A0 && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::FIRST)
    sa_reach("end");
}
ENTRY(only_first, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 > b && A0 <= e && B0 > e && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::FIRST)
    sa_reach("end");
}
ENTRY(only_second, "A, B / S, U") // reach: end
{
    START
    sa_assume(B0 > b && B0 <= e && A0 > e && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    TOKEN(LONGEST, it, b, B0, kind::SECOND)
    sa_reach("end");
}
ENTRY(mixed_tie, "S, B, U, A") // reach: end
{
    START
    sa_assume(A0 > b && A0 <= e && B0 == A0 && S0 > e && U0 > e);
    auto it = MIXED::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::SECOND)
    sa_reach("end");
}
ENTRY(mixed_longest, "S, B, U, A") // reach: end
{
    START
    sa_assume(A0 > b && A0 <= e && B0 < A0 && B0 >= b && S0 > e && U0 > e);
    auto it = MIXED::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::FIRST)
    sa_reach("end");
}
ENTRY(three_last, "A, B, D / S") // reach: end
{
    START
    sa_assume(A0 >= b && B0 >= b && D0 <= e && D0 > A0 && D0 > B0 && S0 > e);
    auto it = THREE::match({b, e});
    TOKEN(LONGEST, it, b, D0, kind::THIRD)
    sa_reach("end");
}
ENTRY(three_middle, "A, B, D / S") // reach: end
{
    START
    sa_assume(A0 >= b && D0 >= b && B0 <= e && B0 > A0 && B0 >= D0 && S0 > e);
    auto it = THREE::match({b, e});
    TOKEN(LONGEST, it, b, B0, kind::SECOND)
    sa_reach("end");
}
ENTRY(three_first, "A, B, D / S") // reach: end
{
    START
    sa_assume(A0 > b && A0 <= e && B0 >= b && D0 >= b && A0 >= B0 && A0 >= D0 && S0 > e);
    auto it = THREE::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::FIRST)
    sa_reach("end");
}
ENTRY(three_one_fails, "A, B, D / S") // reach: end
{
    START
    sa_assume(A0 > e && B0 > b && B0 < D0 && D0 <= e && S0 > e);
    auto it = THREE::match({b, e});
    TOKEN(LONGEST, it, b, D0, kind::THIRD)
    sa_reach("end");
}
ENTRY(three_tie_end, "A, B, D / S") // reach: end
{
    START
    sa_assume(A0 > e && B0 > b && B0 == D0 && D0 <= e && S0 > e);
    auto it = THREE::match({b, e});
    TOKEN(LONGEST, it, b, B0, kind::SECOND)
    sa_reach("end");
}
ENTRY(alternatives_in_token, "A|B, D / S|U") // reach: end
{
    START
    using T = e_regex::tokenization::tokenizer<token {kind::FIRST, "A|B"}, token {kind::SECOND, "D"}, separator {"S|U"}>;
    sa_assume(A0 > e && B0 > b && D0 < B0 && D0 >= b && B0 == p && p < e && S0 > e && U0 > e);
    sa_assume(S1 > e && U1 == q && q < e && A2 > e && B2 > q && B2 <= e && D2 > e);
    auto it = T::match({b, e});
    TOKEN(LONGEST, it, b, p, kind::FIRST)
    ++it;
    TOKEN(SEP_AT, it, q, B2, kind::FIRST)
    sa_reach("end");
}
ENTRY(alternatives_not_later, "A|B / S|U: no alternative of a token skips text") // reach: end
{
    START
    using T = e_regex::tokenization::tokenizer<token {kind::FIRST, "A|B"}, separator {"S|U"}>;
    sa_assume(A0 > e && B0 > e && S0 > e && U0 > e);
    auto it = T::match({b, e});
    OVER(STOP_TEXT, it)
    sa_reach("end");
}
ENTRY(group_in_token, "(A), B / (S)") // reach: end
{
    START
    using T = e_regex::tokenization::tokenizer<token {kind::FIRST, "(A)"}, token {kind::SECOND, "B"}, separator {"(S)"}>;
    sa_assume(A0 == p && p < e && B0 < A0 && B0 >= b && S0 > e && S1 == q && q < e && A2 > e && B2 > q && B2 <= e);
    auto it = T::match({b, e});
    TOKEN(LONGEST, it, b, p, kind::FIRST)
    ++it;
    TOKEN(SEP_AT, it, q, B2, kind::SECOND)
    sa_reach("end");
}
ENTRY(none, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 > e && B0 > e && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    OVER(STOP_TEXT, it)
    sa_check("a tokenizer without a token is at its end", it == it.end() && !(it != it.end()) && it.end() == it && !(it.end() != it));
    ++it;
    OVER(STAYS, it)
    ++it;
    OVER(STAYS, it)
    sa_check("a tokenizer without a token is at its end", it == it.end());
    sa_reach("end");
}
ENTRY(empty_input, "A, B / S, U") // reach: end
{
    const P b = sa_begin(), e = sa_end();
    sa_assume(b == e);
    auto it = TWO::match({b, e});
    OVER(STOP_END, it)
    sa_check("a tokenizer without a token is at its end", it == it.end());
    sa_reach("end");
}
ENTRY(empty_token, "A / S: nothing is not a token") // reach: end
{
    START
    using T = e_regex::tokenization::tokenizer<token {kind::FIRST, "A"}, separator {"S"}>;
    sa_assume(A0 == b && S0 > e);
    auto it = T::match({b, e});
    OVER("an empty match is not a token", it)
    sa_check("a tokenizer without a token is at its end", it == it.end());
    sa_reach("end");
}
ENTRY(leading_separator, "A, B / S, U") // reach: end
{
    START
    sa_assume(S0 == p && U0 > e && p < e && A1 > p && A1 <= e && B1 > e);
    auto it = TWO::match({b, e});
    TOKEN("a separator may precede the first token", it, p, A1, kind::FIRST)
    sa_reach("end");
}
ENTRY(leading_separator_only, "A, B / S, U") // reach: end
{
    START
    sa_assume(S0 == p && U0 > e && p < e && A1 > e && B1 > e);
    auto it = TWO::match({b, e});
    OVER(STOP_TEXT, it)
    sa_reach("end");
}
ENTRY(separator_only, "A, B / S, U") // reach: end
{
    START
    sa_assume(S0 == e && U0 > e);
    auto it = TWO::match({b, e});
    OVER(STOP_END, it)
    sa_reach("end");
}
ENTRY(second, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e);
    sa_assume(S1 == q && q < e && U1 > e && A2 > e && B2 > q && B2 <= e);
    auto it = TWO::match({b, e});
    TOKEN(FIRST_AT, it, b, p, kind::FIRST)
    auto& same = ++it;
    sa_check("increment gives the iterator itself", &same == &it);
    TOKEN(SEP_AT, it, q, B2, kind::SECOND)
    sa_reach("end");
}
ENTRY(second_longest_separator, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e);
    sa_assume(S1 >= p && S1 < q && U1 == q && q < e && A2 > e && B2 > q && B2 <= e);
    auto it = TWO::match({b, e});
    ++it;
    TOKEN("the longest separator is skipped", it, q, B2, kind::SECOND)
    sa_reach("end");
}
ENTRY(second_first_separator_longest, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 > e && B0 == p && p < e && S0 > e && U0 > e);
    sa_assume(U1 >= p && U1 < q && S1 == q && q < e && A2 > q && A2 <= e && B2 < A2 && B2 >= q);
    auto it = TWO::match({b, e});
    TOKEN(FIRST_AT, it, b, p, kind::SECOND)
    ++it;
    TOKEN("the longest separator is skipped", it, q, A2, kind::FIRST)
    sa_reach("end");
}
ENTRY(second_longest, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e);
    sa_assume(S1 == q && q < e && U1 > e && A2 > q && A2 < B2 && B2 <= e);
    auto it = TWO::match({b, e});
    ++it;
    TOKEN(LONGEST, it, q, B2, kind::SECOND)
    sa_reach("end");
}
ENTRY(second_tie, "A, B / S, U") // reach: end
{
    START
    sa_assume(B0 == p && p < e && A0 > e && S0 > e && U0 > e);
    sa_assume(S1 == q && q < e && U1 > e && A2 > q && A2 == B2 && B2 <= e);
    auto it = TWO::match({b, e});
    ++it;
    TOKEN(LONGEST, it, q, B2, kind::FIRST)
    sa_reach("end");
}
ENTRY(missing_separator, "A, B / S, U: a token directly after a token") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e && S1 > e && U1 > e);
    auto it = TWO::match({b, e});
    TOKEN(FIRST_AT, it, b, p, kind::FIRST)
    ++it;
    OVER(STOP_SEP, it)
    sa_check("a tokenizer without a token is at its end", it == it.end());
    ++it;
    OVER(STAYS, it)
    ++it;
    OVER(STAYS, it)
    sa_reach("end");
}
ENTRY(empty_separator, "A, B / S, U: a separator that matches nothing") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e && S1 == p && U1 > e);
    auto it = TWO::match({b, e});
    TOKEN(FIRST_AT, it, b, p, kind::FIRST)
    ++it;
    OVER("an empty match is not a separator", it)
    sa_reach("end");
}
ENTRY(at_end, "A, B / S, U: the input ends after a token") // reach: end
{
    START
    sa_assume(A0 == e && B0 > e && S0 > e && U0 > e && p == e && S1 > e && U1 > e);
    auto it = TWO::match({b, e});
    TOKEN(FIRST_AT, it, b, e, kind::FIRST)
    sa_check("a tokenizer that has a token is not at its end", it != it.end());
    ++it;
    OVER(STOP_END, it)
    sa_check("a tokenizer without a token is at its end", it == it.end());
    ++it;
    OVER(STAYS, it)
    sa_reach("end");
}
ENTRY(separator_at_end, "A, B / S, U: the input ends after a separator") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e && S1 == e && U1 > e && q == e && A2 >= e && B2 >= e);
    auto it = TWO::match({b, e});
    ++it;
    OVER(STOP_END, it)
    sa_check("a tokenizer without a token is at its end", it == it.end());
    ++it;
    OVER(STAYS, it)
    sa_reach("end");
}
ENTRY(no_token_after_separator, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e && S1 == q && q < e && U1 > e && A2 > e && B2 > e);
    auto it = TWO::match({b, e});
    ++it;
    OVER(STOP_TEXT, it)
    sa_check("a tokenizer without a token is at its end", it == it.end());
    ++it;
    OVER(STAYS, it)
    ++it;
    OVER(STAYS, it)
    sa_reach("end");
}
ENTRY(empty_token_after_separator, "A, B / S, U") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e && S1 == q && q < e && U1 > e && A2 == q && B2 > e);
    auto it = TWO::match({b, e});
    ++it;
    OVER("an empty match is not a token", it)
    sa_reach("end");
}
ENTRY(begin_again, "A, B / S, U: begin() starts over") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e);
    sa_assume(S1 == q && q < e && U1 > e && A2 > e && B2 > q && B2 <= e);
    auto it = TWO::match({b, e});
    ++it;
    auto again = it.begin();
    TOKEN("begin() gives the first token", again, b, p, kind::FIRST)
    TOKEN("begin() leaves the iterator where it is", it, q, B2, kind::SECOND)
    sa_check("different tokens are different positions", again != it);
    sa_reach("end");
}
ENTRY(copy, "A, B / S, U: a copy is independent") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e);
    sa_assume(S1 == q && q < e && U1 > e && A2 > e && B2 > q && B2 <= e);
    auto it = TWO::match({b, e});
    auto other = it;
    sa_check("a copy equals its original", other == it);
    ++it;
    TOKEN("a copy keeps its token", other, b, p, kind::FIRST)
    ++other;
    TOKEN(SEP_AT, other, q, B2, kind::SECOND)
    auto third = std::move(other);
    TOKEN("a moved iterator keeps its token", third, q, B2, kind::SECOND)
    other = it.begin();
    TOKEN("an assigned iterator has the token", other, b, p, kind::FIRST)
    sa_reach("end");
}
ENTRY(invalidate, "A, B / S, U: invalidate()") // reach: end
{
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    it.invalidate();
    OVER("an invalidated tokenizer has no token", it)
    sa_check("a tokenizer without a token is at its end", it == it.end());
    ++it;
    OVER(STAYS, it)
    sa_reach("end");
}
ENTRY(walk_for, "X, X / Y: range-for over any number of tokens") // reach: token, end
{
    using T = e_regex::tokenization::tokenizer<token {kind::FIRST, "X"}, token {kind::SECOND, "X"}, separator {"Y"}>;
    const P b = sa_begin(), e = sa_end();
    P last = nullptr;
    for (auto t: T::match({b, e}))
    {
        sa_reach("token");
        sa_check("a token lies inside the input", t.value.begin() >= b && t.value.end() <= e);
        sa_check("a token is not empty", t.value.end() > t.value.begin());
        sa_check("a token starts after the end of the one before it and a separator", last == nullptr || t.value.begin() > last);
        sa_check("a token has a type it was declared with", t.type == kind::FIRST || t.type == kind::SECOND);
        last = t.value.end();
    }
    sa_reach("end");
}
ENTRY(walk_manual, "X / Y: ++ over any number of tokens") // reach: token, end
{
    using T = e_regex::tokenization::tokenizer<token {kind::FIRST, "X"}, separator {"Y"}>;
    const P b = sa_begin(), e = sa_end();
    auto it = T::match({b, e});
    P last = b;
    bool first = true;
    while (it)
    {
        sa_reach("token");
        auto t = *it;
        sa_check("a token lies inside the input", t.value.begin() >= b && t.value.end() <= e);
        sa_check("a token is not empty", t.value.end() > t.value.begin());
        sa_check("a token starts after the end of the one before it and a separator", first ? t.value.begin() >= b : t.value.begin() > last);
        last = t.value.end();
        first = false;
        ++it;
    }
    sa_check("a tokenizer without a token is at its end", it == it.end());
    sa_reach("end");
}
ENTRY(walk_chain, "M / N: every token begins where its separator ended, for any number of tokens") // reach: token, end
{
    using T = e_regex::tokenization::tokenizer<token {kind::SECOND, "M"}, separator {"N"}>;
    const P b = sa_begin(), e = sa_end();
    probe::sa_ghost_separated = b;
    probe::sa_ghost_tokenized = b;
    for (auto it = T::match({b, e}); it; ++it)
    {
        const auto t = *it;
        sa_reach("token");
        sa_check(SEP_AT, t.value.begin() == probe::sa_ghost_separated);
        sa_check("a token ends where its match ends", t.value.end() == probe::sa_ghost_tokenized);
        sa_check("a token has the type it was declared with", t.type == kind::SECOND);
    }
    sa_reach("end");
}
ENTRY(walk_choice, "G, H / Y: the longest of two tokens, for any number of tokens") // reach: first, second, end
{
    using T = e_regex::tokenization::tokenizer<token {kind::FIRST, "G"}, separator {"Y"}, token {kind::SECOND, "H"}>;
    const P b = sa_begin(), e = sa_end();
    for (auto it = T::match({b, e}); it; ++it)
    {
        const auto t = *it;
        if (t.type == kind::FIRST)
        {
            sa_reach("first");
            sa_check(LONGEST, t.value.end() == probe::sa_ghost_first && probe::sa_ghost_first >= probe::sa_ghost_second);
        }
        else
        {
            sa_reach("second");
            sa_check("a token has a type it was declared with", t.type == kind::SECOND);
            sa_check(LONGEST, t.value.end() == probe::sa_ghost_second && probe::sa_ghost_second > probe::sa_ghost_first);
        }
    }
    sa_reach("end");
}
#define MANY e_regex::tokenization::tokenizer<token {kind::FIRST, "A"}, token {kind::THIRD, "D"}, token {kind::THIRD, "DD"}, separator {"S"}, token {kind::THIRD, "DA"}, token {kind::THIRD, "DB"}, token {kind::THIRD, "D|D"}, token {kind::THIRD, "D(A)"}, token {kind::THIRD, "(D)"}, token {kind::THIRD, "D?D"}, separator {"U"}, token {kind::SECOND, "B"}>
ENTRY(many_last, "A, D (eight times), B / S, U") // reach: end
{
    START
    sa_assume(A0 > b && A0 <= e && B0 > A0 && B0 <= e && D0 > e && D1 > e && D2 > e && S0 > e && U0 > e);
    auto it = MANY::match({b, e});
    TOKEN(LONGEST, it, b, B0, kind::SECOND)
    sa_reach("end");
}
ENTRY(many_first, "A, D (eight times), B / S, U") // reach: end
{
    START
    sa_assume(A0 > b && A0 <= e && B0 <= A0 && B0 >= b && D0 > e && D1 > e && D2 > e && S0 > e && U0 > e);
    auto it = MANY::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::FIRST)
    sa_reach("end");
}
ENTRY(large_first, "A, B / S, U") // reach: end; depth: 3000
{
    START
    sa_assume(A0 == b + 256 && B0 == b + 255 && e == b + 257 && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::FIRST)
    sa_reach("end");
}
ENTRY(large_second, "A, B / S, U") // reach: end; depth: 3000
{
    START
    sa_assume(A0 == b + 255 && B0 == b + 256 && e == b + 257 && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    TOKEN(LONGEST, it, b, B0, kind::SECOND)
    sa_reach("end");
}
ENTRY(large_short, "A, B / S, U") // reach: end; depth: 3000
{
    START
    sa_assume(A0 == b + 512 && B0 == b + 511 && A0 < e && e == b + 513 && S0 > e && U0 > e);
    auto it = TWO::match({b, e});
    TOKEN(LONGEST, it, b, A0, kind::FIRST)
    sa_reach("end");
}
ENTRY(large_separator, "A, B / S, U") // reach: end; depth: 3000
{
    // the longer separator is 256 characters long
    START
    sa_assume(A0 == p && p < e && B0 > e && S0 > e && U0 > e);
    sa_assume(p == b + 2 && e == q + 2 && q == p + 256 && S1 == p + 1 && U1 == q && A2 > e && B2 > q && B2 <= e);
    auto it = TWO::match({b, e});
    ++it;
    TOKEN("the longest separator is skipped", it, q, B2, kind::SECOND)
    sa_reach("end");
}
ENTRY(large_separator_first, "A, B / S, U") // reach: end; depth: 3000
{
    START
    sa_assume(A0 > e && B0 == p && p < e && S0 > e && U0 > e);
    sa_assume(p == b + 2 && q == p + 257 && U1 == p + 255 && S1 == q && A2 == q + 256 && A2 == e && B2 == q + 1);
    auto it = TWO::match({b, e});
    TOKEN(FIRST_AT, it, b, p, kind::SECOND)
    ++it;
    TOKEN("the longest separator is skipped", it, q, A2, kind::FIRST)
    sa_reach("end");
}
