// Sequences, alternatives, groups, brackets, anchors over probes.
ENTRY(seq_ab, "AB") // reach: yes, no
{
    RUN("AB")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("every part of a sequence matched", OK(A) && OK(B));
        sa_check("the parts of a sequence are adjacent", d.g->atA == s && d.g->atB == endA() && pos == endB());
    }
    else
    {
        sa_reach("no");
        sa_check("a sequence is rejected only when a part fails", NO(A) || (OK(A) && NO(B)));
        restored(d, s);
    }
}
ENTRY(seq_abd, "ABD") // reach: yes, no
{
    RUN("ABD")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("every part of a sequence matched", OK(A) && OK(B) && OK(D));
        sa_check("the parts of a sequence are adjacent", d.g->atA == s && d.g->atB == endA() && d.g->atD == endB() && pos == endD());
    }
    else
    {
        sa_reach("no");
        sa_check("a sequence is rejected only when a part fails", NO(A) || (OK(A) && NO(B)) || (OK(A) && OK(B) && NO(D)));
        restored(d, s);
    }
}
ENTRY(seq_nc, "(?:AB)D") // reach: yes, no
{
    RUN("(?:AB)D")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("every part of a sequence matched", OK(A) && OK(B) && OK(D));
        sa_check("the parts of a sequence are adjacent", d.g->atA == s && d.g->atB == endA() && d.g->atD == endB() && pos == endD());
    }
    else
    {
        sa_reach("no");
        sa_check("a sequence is rejected only when a part fails", NO(A) || (OK(A) && NO(B)) || (OK(A) && OK(B) && NO(D)));
        restored(d, s);
    }
}
ENTRY(seq_nc2, "A(?:BD)") // reach: yes, no
{
    RUN("A(?:BD)")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("every part of a sequence matched", OK(A) && OK(B) && OK(D));
        sa_check("the parts of a sequence are adjacent", d.g->atA == s && d.g->atB == endA() && d.g->atD == endB() && pos == endD());
    }
    else
    {
        sa_reach("no");
        sa_check("a sequence is rejected only when a part fails", NO(A) || (OK(A) && NO(B)) || (OK(A) && OK(B) && NO(D)));
        restored(d, s);
    }
}
ENTRY(grp_first, "(A)B") // reach: yes, no
{
    RUN("(A)B")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("every part of a sequence matched", OK(A) && OK(B));
        sa_check("the parts of a sequence are adjacent", d.g->atA == s && d.g->atB == endA() && pos == endB());
        sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endA()));
    }
    else
    {
        sa_reach("no");
        sa_check("a sequence is rejected only when a part fails", NO(A) || (OK(A) && NO(B)));
        restored(d, s);
    }
}
ENTRY(grp_second, "A(B)D") // reach: yes, no
{
    RUN("A(B)D")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("every part of a sequence matched", OK(A) && OK(B) && OK(D));
        sa_check("the parts of a sequence are adjacent", d.g->atA == s && d.g->atB == endA() && d.g->atD == endB() && pos == endD());
        sa_check("group 1 is what its parentheses matched", captured<1>(d, endA(), endB()));
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(grp_nested, "((A)B)D") // reach: yes, no
{
    RUN("((A)B)D")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("every part of a sequence matched", OK(A) && OK(B) && OK(D) && pos == endD());
        sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endB()));
        sa_check("group 2 is what its parentheses matched", captured<2>(d, s, endA()));
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(grp_nested3, "A(B(D))(X)") // reach: yes, no
{
    RUN("A(B(D))(X)")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("every part of a sequence matched", OK(A) && OK(B) && OK(D) && OK(X) && pos == endX());
        sa_check("group 1 is what its parentheses matched", captured<1>(d, endA(), endD()));
        sa_check("group 2 is what its parentheses matched", captured<2>(d, endB(), endD()));
        sa_check("group 3 is what its parentheses matched", captured<3>(d, endD(), endX()));
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(alt_2, "A|B") // reach: first, second, no
{
    RUN("A|B")
    if (d.accepted)
    {
        sa_check("the accepted alternative is the first that matches",
                 (OK(A) && NOT(B) && pos == endA()) || (NO(A) && OK(B) && pos == endB()));
        if (OK(A)) sa_reach("first");
        if (OK(B)) sa_reach("second");
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", NO(A) && NO(B));
        restored(d, s);
    }
    if (!NOT(B)) sa_check("every alternative starts at the same position", d.g->atB == s);
}
ENTRY(alt_3, "A|B|D") // reach: first, second, third, no
{
    RUN("A|B|D")
    if (d.accepted)
    {
        sa_check("the accepted alternative is the first that matches",
                 (OK(A) && NOT(B) && NOT(D) && pos == endA()) || (NO(A) && OK(B) && NOT(D) && pos == endB())
                     || (NO(A) && NO(B) && OK(D) && pos == endD()));
        if (OK(A)) sa_reach("first");
        if (OK(B)) sa_reach("second");
        if (OK(D)) sa_reach("third");
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", NO(A) && NO(B) && NO(D));
        restored(d, s);
    }
    if (!NOT(B)) sa_check("every alternative starts at the same position", d.g->atB == s);
    if (!NOT(D)) sa_check("every alternative starts at the same position", d.g->atD == s);
}
ENTRY(alt_group, "(A|B)Y") // reach: first, second, no
{
    RUN("(A|B)Y")
    if (d.accepted)
    {
        sa_check("the accepted alternative is the first that matches",
                 (OK(A) && NOT(B) && d.g->atY == endA()) || (NO(A) && OK(B) && d.g->atY == endB()));
        sa_check("the match ends where what follows ends", pos == endY());
        if (OK(A))
        {
            sa_reach("first");
            sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endA()));
        }
        else
        {
            sa_reach("second");
            sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endB()));
        }
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", NO(A) && NO(B));
        restored(d, s);
    }
}
ENTRY(alt_nc, "(?:A|B)Y") // reach: first, second, no
{
    RUN("(?:A|B)Y")
    if (d.accepted)
    {
        sa_check("the accepted alternative is the first that matches",
                 (OK(A) && NOT(B) && d.g->atY == endA()) || (NO(A) && OK(B) && d.g->atY == endB()));
        sa_check("the match ends where what follows ends", pos == endY());
        if (OK(A)) sa_reach("first");
        if (OK(B)) sa_reach("second");
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", NO(A) && NO(B));
        restored(d, s);
    }
}
ENTRY(alt_prefix, "X(?:A|B)Y") // reach: first, second, no
{
    RUN("X(?:A|B)Y")
    if (d.accepted)
    {
        sa_check("the accepted alternative is the first that matches",
                 OK(X) && ((OK(A) && NOT(B) && d.g->atY == endA()) || (NO(A) && OK(B) && d.g->atY == endB())));
        sa_check("every alternative starts at the same position", d.g->atA == endX() && (NOT(B) || d.g->atB == endX()));
        sa_check("the match ends where what follows ends", pos == endY());
        if (OK(A)) sa_reach("first");
        if (OK(B)) sa_reach("second");
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", NO(X) || (NO(A) && NO(B)));
        restored(d, s);
    }
}
ENTRY(alt_follow, "(?:A|B)D") // reach: yes, no
{
    RUN("(?:A|B)D")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("what follows an alternative starts where the alternative ends",
                 OK(D) && pos == endD() && ((OK(A) && d.g->atD == endA()) || (OK(B) && d.g->atD == endB())));
        sa_check("a later alternative is used only when an earlier one does not lead to a match",
                 (OK(A) && NOT(B)) || NO(A) || d.g->atD == endB());
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when a part fails", (NO(A) && NO(B)) || NO(D));
        restored(d, s);
    }
}
ENTRY(alt_seq_first, "AB|D") // reach: first, second, no
{
    RUN("AB|D")
    if (d.accepted)
    {
        if (OK(D))
        {
            sa_reach("second");
            sa_check("a later alternative is used only when the earlier ones fail", NO(A) || NO(B));
            sa_check("every alternative starts at the same position", d.g->atD == s && pos == endD());
        }
        else
        {
            sa_reach("first");
            sa_check("the whole sequence of an alternative matched", OK(A) && OK(B) && NOT(D) && d.g->atB == endA() && pos == endB());
        }
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", (NO(A) || NO(B)) && NO(D));
        restored(d, s);
    }
}
ENTRY(alt_seq_second, "A|BD") // reach: first, second, no
{
    RUN("A|BD")
    if (d.accepted)
    {
        if (OK(A))
        {
            sa_reach("first");
            sa_check("the accepted alternative is the first that matches", NOT(B) && NOT(D) && pos == endA());
        }
        else
        {
            sa_reach("second");
            sa_check("the whole sequence of an alternative matched", NO(A) && OK(B) && OK(D) && d.g->atB == s && d.g->atD == endB() && pos == endD());
        }
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", NO(A) && (NO(B) || NO(D)));
        restored(d, s);
    }
}
ENTRY(alt_groups, "(A)|(B)") // reach: first, second, no
{
    RUN("(A)|(B)")
    if (d.accepted)
    {
        if (OK(A))
        {
            sa_reach("first");
            sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endA()) && pos == endA());
            sa_check("the groups of other alternatives stay as they were", untouched<2>(d));
        }
        else
        {
            sa_reach("second");
            sa_check("group 2 is what its parentheses matched", captured<2>(d, s, endB()) && pos == endB());
            sa_check("the groups of other alternatives stay as they were", untouched<1>(d));
        }
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(alt_groups_undo, "(A)B|(D)") // reach: first, second, no
{
    RUN("(A)B|(D)")
    if (d.accepted)
    {
        if (OK(D))
        {
            sa_reach("second");
            sa_check("group 2 is what its parentheses matched", captured<2>(d, s, endD()) && pos == endD());
            sa_check("a group of an abandoned alternative is undone", untouched<1>(d));
        }
        else
        {
            sa_reach("first");
            sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endA()) && pos == endB());
            sa_check("the groups of other alternatives stay as they were", untouched<2>(d));
        }
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(alt_groups_nested, "((A)B|(D))X") // reach: first, second, no
{
    RUN("((A)B|(D))X")
    if (d.accepted)
    {
        sa_check("the match ends where what follows ends", OK(X) && pos == endX());
        if (OK(D) && d.g->atX == endD() && !(OK(A) && OK(B)))
        {
            sa_reach("second");
            sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endD()));
            sa_check("a group of an abandoned alternative is undone", untouched<2>(d));
            sa_check("group 3 is what its parentheses matched", captured<3>(d, s, endD()));
        }
        else
        {
            sa_reach("first");
            sa_check("the whole sequence of an alternative matched", OK(A) && OK(B));
            if (NOT(D))
            {
                sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endB()) && d.g->atX == endB());
                sa_check("group 2 is what its parentheses matched", captured<2>(d, s, endA()));
                sa_check("the groups of other alternatives stay as they were", untouched<3>(d));
            }
        }
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(alt_top3_groups, "(A)|(B)D|(X)") // reach: first, second, third, no
{
    RUN("(A)|(B)D|(X)")
    if (d.accepted)
    {
        if (OK(A))
        {
            sa_reach("first");
            sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endA()) && pos == endA());
            sa_check("the groups of other alternatives stay as they were", untouched<2>(d) && untouched<3>(d));
        }
        else if (OK(X))
        {
            sa_reach("third");
            sa_check("group 3 is what its parentheses matched", captured<3>(d, s, endX()) && pos == endX());
            sa_check("a group of an abandoned alternative is undone", untouched<1>(d) && untouched<2>(d));
        }
        else
        {
            sa_reach("second");
            sa_check("group 2 is what its parentheses matched", captured<2>(d, s, endB()) && pos == endD());
            sa_check("the groups of other alternatives stay as they were", untouched<1>(d) && untouched<3>(d));
        }
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(opt_undo, "(?:(A)B)?Y") // reach: taken, skipped
{
    RUN("(?:(A)B)?Y")
    sa_check("an optional part never makes the match fail", d.accepted && pos == endY());
    if (OK(A) && OK(B))
    {
        sa_reach("taken");
        sa_check("an optional part is taken when it matches", d.g->atY == endB());
        sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endA()));
    }
    else
    {
        sa_reach("skipped");
        sa_check("a failed optional part leaves no trace", d.g->atY == s && untouched<1>(d));
    }
}
ENTRY(opt_possessive_undo, "(?:(A)B)?+Y") // reach: taken, skipped
{
    RUN("(?:(A)B)?+Y")
    sa_check("an optional part never makes the match fail", d.accepted && pos == endY());
    if (OK(A) && OK(B))
    {
        sa_reach("taken");
        sa_check("an optional part is taken when it matches", d.g->atY == endB());
        sa_check("group 1 is what its parentheses matched", captured<1>(d, s, endA()));
    }
    else
    {
        sa_reach("skipped");
        sa_check("a failed optional part leaves no trace", d.g->atY == s && untouched<1>(d));
    }
}
ENTRY(loop_greedy_undo, "((P)Q)*Y") // reach: some, none
{
    RUN("((P)Q)*Y")
    sa_check("an optional part never makes the match fail", d.accepted && pos == endY());
    if (d.g->calls)
    {
        sa_reach("some");
        sa_check("what follows starts after the last repetition", d.g->atY == d.g->iterE);
        sa_check("group 1 is the last repetition", captured<1>(d, d.g->iterB, d.g->iterE));
        sa_check("group 2 is the last repetition", captured<2>(d, d.g->iterB, d.g->iterM));
    }
    else
    {
        sa_reach("none");
        sa_check("a failed repetition leaves no trace", d.g->atY == s && untouched<1>(d) && untouched<2>(d));
    }
}
ENTRY(loop_possessive_undo, "((P)Q)*+Y") // reach: some, none
{
    RUN("((P)Q)*+Y")
    sa_check("an optional part never makes the match fail", d.accepted && pos == endY());
    if (d.g->calls)
    {
        sa_reach("some");
        sa_check("what follows starts after the last repetition", d.g->atY == d.g->iterE);
        sa_check("group 1 is the last repetition", captured<1>(d, d.g->iterB, d.g->iterE));
        sa_check("group 2 is the last repetition", captured<2>(d, d.g->iterB, d.g->iterM));
    }
    else
    {
        sa_reach("none");
        sa_check("a failed repetition leaves no trace", d.g->atY == s && untouched<1>(d) && untouched<2>(d));
    }
}
ENTRY(loop_min_undo, "((P)Q){2,}Y") // reach: yes, no
{
    RUN("((P)Q){2,}Y")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("what follows starts after the last repetition", d.g->atY == d.g->iterE && pos == endY());
        sa_check("group 1 is the last repetition", captured<1>(d, d.g->iterB, d.g->iterE));
        sa_check("group 2 is the last repetition", captured<2>(d, d.g->iterB, d.g->iterM));
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(loop_exact_undo, "((P)Q){2}Y") // reach: yes, no
{
    RUN("((P)Q){2}Y")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("what follows starts after the last repetition", d.g->atY == d.g->iterE && pos == endY());
        sa_check("group 1 is the last repetition", captured<1>(d, d.g->iterB, d.g->iterE));
        sa_check("group 2 is the last repetition", captured<2>(d, d.g->iterB, d.g->iterM));
    }
    else
    {
        sa_reach("no");
        restored(d, s);
    }
}
ENTRY(loop_never_followed, "((R))*Z") // reach: no
{
    sa_assume(sa_const(3) == sa_begin() && sa_const(5) >= sa_begin() && sa_const(5) <= sa_end());
    RUN("((R))*Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    sa_reach("no");
    restored(d, s);
}
ENTRY(lazy_never_followed, "((P)Q)*?Z") // reach: no
{
    RUN("((P)Q)*?Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    sa_reach("no");
    restored(d, s);
}
ENTRY(possessive_never_followed, "((P)Q)++Z") // reach: no
{
    RUN("((P)Q)++Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    sa_reach("no");
    restored(d, s);
}
ENTRY(group_never_followed, "(((R))*)Z") // reach: no
{
    sa_assume(sa_const(3) == sa_begin() && sa_const(5) >= sa_begin() && sa_const(5) <= sa_end());
    RUN("(((R))*)Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    sa_reach("no");
    restored(d, s);
}
ENTRY(group_lazy_never_followed, "(((P)Q)+?)Z") // reach: no
{
    RUN("(((P)Q)+?)Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    sa_reach("no");
    restored(d, s);
}
ENTRY(alt_never_followed, "((P)Q|(P))Z") // reach: no
{
    RUN("((P)Q|(P))Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    sa_reach("no");
    restored(d, s);
}
ENTRY(repeated_never_followed, "((P)Q){3}Z") // reach: no
{
    RUN("((P)Q){3}Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    sa_reach("no");
    restored(d, s);
}
ENTRY(set_2, "[MN]") // reach: yes, no
{
    RUN("[MN]")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("a bracket matches exactly one character", pos == s + 1 && (OK(M) || OK(N)));
    }
    else
    {
        sa_reach("no");
        sa_check("a bracket fails only when every member fails", NO(M) && NO(N));
        restored(d, s);
    }
}
ENTRY(set_follow, "([MN])Y") // reach: yes, no
{
    RUN("([MN])Y")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("a bracket matches exactly one character", d.g->atY == s + 1 && (OK(M) || OK(N)) && captured<1>(d, s, s + 1));
    }
    else
    {
        sa_reach("no");
        sa_check("a bracket fails only when every member fails", NO(M) && NO(N));
        restored(d, s);
    }
}
ENTRY(negset_2, "[^MN]") // reach: yes, no, end
{
    RUN("[^MN]")
    if (s == e) sa_reach("end");
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("a negated bracket matches exactly one character", s < e && pos == s + 1);
        sa_check("a negated bracket matches only when every member fails", NO(M) && NO(N));
    }
    else
    {
        sa_reach("no");
        sa_check("a negated bracket fails only at the end or when a member matches", s == e || OK(M) || OK(N));
        restored(d, s);
    }
}
ENTRY(negset_follow, "([^M])Y") // reach: yes, no
{
    RUN("([^M])Y")
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("a negated bracket matches exactly one character", s < e && d.g->atY == s + 1 && NO(M) && captured<1>(d, s, s + 1));
    }
    else
    {
        sa_reach("no");
        sa_check("a negated bracket fails only at the end or when a member matches", s == e || OK(M));
        restored(d, s);
    }
}
ENTRY(negset_undo, "[^M]Z") // reach: no
{
    RUN("[^M]Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    sa_reach("no");
    restored(d, s);
}
ENTRY(anchor_start, "^A") // reach: yes, no
{
    RUN_BOL("^A")
    if (!NOT(A)) sa_check("^ holds only at the start of the input or of a line", bol);
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("the match ends where what follows ends", bol && OK(A) && d.g->atA == s && pos == endA());
    }
    else
    {
        sa_reach("no");
        sa_check("^ holds at the start of the input", s > b || NO(A));
        restored(d, s);
    }
}
ENTRY(anchor_start_alt, "^A|B") // reach: first, second, no
{
    RUN_BOL("^A|B")
    if (!NOT(A)) sa_check("^ holds only at the start of the input or of a line", bol);
    if (d.accepted)
    {
        if (OK(B)) sa_reach("second"); else sa_reach("first");
        sa_check("the accepted alternative is the first that matches",
                 (OK(A) && NOT(B) && pos == endA()) || (OK(B) && !OK(A) && pos == endB()));
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", (s > b || NO(A)) && NO(B));
        restored(d, s);
    }
}
ENTRY(anchor_start_second, "B|^A") // reach: first, second, no
{
    RUN_BOL("B|^A")
    if (!NOT(A)) sa_check("^ holds only at the start of the input or of a line", bol);
    if (d.accepted)
    {
        if (OK(B)) sa_reach("first"); else sa_reach("second");
        sa_check("the accepted alternative is the first that matches",
                 (OK(B) && NOT(A) && pos == endB()) || (NO(B) && OK(A) && pos == endA()));
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", (s > b || NO(A)) && NO(B));
        restored(d, s);
    }
}
ENTRY(anchor_start_group, "^(?:A|B)Y") // reach: yes, no
{
    RUN_BOL("^(?:A|B)Y")
    if (!NOT(A)) sa_check("^ holds only at the start of the input or of a line", bol);
    if (!NOT(B)) sa_check("^ holds for every alternative of what it precedes", bol);
    if (d.accepted) sa_reach("yes");
    else
    {
        sa_reach("no");
        sa_check("^ holds at the start of the input", s > b || (NO(A) && NO(B)));
        restored(d, s);
    }
}
ENTRY(anchor_start_captured, "^(A)") // reach: yes, no
{
    RUN_BOL("^(A)")
    if (!NOT(A)) sa_check("^ holds only at the start of the input or of a line", bol);
    if (d.accepted)
    {
        sa_reach("yes");
        sa_check("the match ends where what follows ends", bol && OK(A) && pos == endA());
        if (endA() >= s) sa_check("group 1 is what A matched", captured<1>(d, s, endA()));
    }
    else
    {
        sa_reach("no");
        sa_check("^ holds at the start of the input", s > b || NO(A));
        restored(d, s);
    }
}
ENTRY(anchor_start_line, "^A") // reach: no
{
    RUN_BOL("^A")
    if (!d.accepted)
    {
        sa_reach("no");
        if (s > b) sa_check("^ holds at the start of every line", !bol || NO(A));
    }
}
ENTRY(anchor_both, "^$") // reach: end, newline, no
{
    RUN_BOL("^$")
    if (d.accepted)
    {
        sa_check("^ holds only at the start of the input or of a line", bol);
        if (s == e)
        {
            sa_reach("end");
            sa_check("$ consumes nothing at the end of the input", pos == s);
        }
        else
        {
            sa_reach("newline");
            sa_check("$ consumes nothing but the newline it matched", pos == s || pos == s + 1);
        }
    }
    else
    {
        sa_reach("no");
        sa_check("^ and $ hold at the start and end of the input", s > b || s < e);
        restored(d, s);
    }
}
ENTRY(anchor_end, "A$") // reach: end, newline, no
{
    RUN_EOL("A$", endA())
    GO
    if (d.accepted)
    {
        sa_check("$ holds only at the end or before a newline", OK(A) && eol);
        if (last)
        {
            sa_reach("end");
            sa_check("$ consumes nothing at the end of the input", pos == e);
        }
        else
        {
            sa_reach("newline");
            sa_check("$ consumes nothing but the newline it matched", pos == endA() || pos == endA() + 1);
        }
    }
    else
    {
        sa_reach("no");
        sa_check("$ holds at the end of the input and of a line", NO(A) || !eol);
        restored(d, s);
    }
}
ENTRY(anchor_end_alt, "A$|B") // reach: first, second, no
{
    RUN_EOL("A$|B", endA())
    sa_assume(eol && !last);
    GO
    if (d.accepted)
    {
        if (OK(B)) sa_reach("second"); else sa_reach("first");
        if (OK(B)) sa_check("the accepted alternative is the first that matches", NO(A) && d.g->atB == s && pos == endB());
        else sa_check("$ holds at the end of the input and of a line", OK(A) && NOT(B));
    }
    else
    {
        sa_reach("no");
        sa_check("$ holds at the end of the input and of a line", NO(A) && NO(B));
        restored(d, s);
    }
}
ENTRY(anchor_end_alt_last, "A$|B") // reach: first, second, no
{
    RUN_EOL("A$|B", endA())
    sa_assume(last);
    GO
    if (d.accepted)
    {
        if (OK(B)) sa_reach("second"); else sa_reach("first");
        if (OK(B)) sa_check("the accepted alternative is the first that matches", NO(A) && d.g->atB == s && pos == endB());
        else sa_check("$ holds at the end of the input and of a line", OK(A) && NOT(B));
    }
    else
    {
        sa_reach("no");
        sa_check("$ holds at the end of the input and of a line", NO(A) && NO(B));
        restored(d, s);
    }
}
ENTRY(anchor_end_alt_not, "A$|B") // reach: second, no
{
    RUN_EOL("A$|B", endA())
    sa_assume(!eol);
    GO
    if (d.accepted)
    {
        sa_reach("second");
        sa_check("$ holds only at the end or before a newline", OK(B) && d.g->atB == s && pos == endB());
    }
    else
    {
        sa_reach("no");
        sa_check("rejected only when every alternative fails", NO(B));
        restored(d, s);
    }
}
ENTRY(anchor_end_group, "(A)$") // reach: end, newline, no
{
    RUN_EOL("(A)$", endA())
    GO
    if (d.accepted)
    {
        sa_check("$ holds only at the end or before a newline", OK(A) && eol);
        if (last) sa_reach("end"); else sa_reach("newline");
        sa_check("$ consumes nothing but the newline it matched", last ? pos == e : (pos == endA() || pos == endA() + 1));
        if (endA() >= s) sa_check("group 1 is what A matched", captured<1>(d, s, endA()));
    }
    else
    {
        sa_reach("no");
        sa_check("$ holds at the end of the input and of a line", NO(A) || !eol);
        restored(d, s);
    }
}
ENTRY(anchor_end_alternatives, "(?:A|B)$") // reach: first, second, no
{
    RUN_EOL("(?:A|B)$", endB())
    GO
    if (d.accepted)
    {
        if (OK(B))
        {
            sa_reach("second");
            sa_check("$ holds only at the end or before a newline", eol);
            sa_check("$ consumes nothing but the newline it matched", last ? pos == e : (pos == endB() || pos == endB() + 1));
        }
        else sa_reach("first");
    }
    else
    {
        sa_reach("no");
        if (OK(B)) sa_check("$ holds at the end of the input and of a line", !eol);
        restored(d, s);
    }
}
ENTRY(empty_star, "E*Y") // reach: end
{
    RUN("E*Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(empty_star_no, "E*Z") // reach: end
{
    RUN("E*Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    restored(d, s);
    sa_reach("end");
}
ENTRY(empty_plus_no, "(E)+Z") // reach: end
{
    RUN("(E)+Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    restored(d, s);
    sa_reach("end");
}
ENTRY(empty_possessive, "E*+Y") // reach: end
{
    RUN("E*+Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(empty_possessive_no, "E++Z") // reach: end
{
    RUN("E++Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    restored(d, s);
    sa_reach("end");
}
ENTRY(empty_lazy, "E*?Y") // reach: end
{
    RUN("E*?Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(empty_lazy_no, "E*?Z") // reach: end
{
    RUN("E*?Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    restored(d, s);
    sa_reach("end");
}
ENTRY(empty_lazy_plus_no, "(E)+?Z") // reach: end
{
    RUN("(E)+?Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    restored(d, s);
    sa_reach("end");
}
ENTRY(empty_min, "E{3,}Y") // reach: end
{
    RUN("E{3,}Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(empty_min_possessive, "E{3,}+Y") // reach: end
{
    RUN("E{3,}+Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(empty_min_lazy, "E{3,}?Y") // reach: end
{
    RUN("E{3,}?Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(empty_nested, "(?:E*)*Y") // reach: end
{
    RUN("(?:E*)*Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(empty_nested_group, "((?:E)*)+Y") // reach: end
{
    RUN("((?:E)*)+Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(empty_alt, "(?:Z|E)*Y") // reach: end
{
    RUN("(?:Z|E)*Y")
    sa_check("accepted", d.accepted && d.g->atY == s && pos == endY());
    sa_reach("end");
}
ENTRY(progress_greedy, "V*Y") // reach: end
{
    RUN("V*Y")
    sa_check("accepted", d.accepted && pos == endY());
    sa_reach("end");
}
ENTRY(progress_group, "(V)*Y") // reach: end
{
    RUN("(V)*Y")
    sa_check("accepted", d.accepted && pos == endY());
    sa_reach("end");
}
ENTRY(progress_possessive, "V*+Y") // reach: end
{
    RUN("V*+Y")
    sa_check("accepted", d.accepted && pos == endY());
    sa_reach("end");
}
ENTRY(progress_possessive_group, "(?:V|Z)*+Y") // reach: end
{
    RUN("(?:V|Z)*+Y")
    sa_check("accepted", d.accepted && pos == endY());
    sa_reach("end");
}
ENTRY(progress_lazy, "V*?Z") // reach: end
{
    RUN("V*?Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    restored(d, s);
    sa_reach("end");
}
ENTRY(progress_lazy_group, "(V)*?Z") // reach: end
{
    RUN("(V)*?Z")
    sa_check("rejected when what follows accepts nowhere", !d.accepted);
    restored(d, s);
    sa_reach("end");
}
