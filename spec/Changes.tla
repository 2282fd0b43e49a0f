------------------------------ MODULE Changes ------------------------------
(* Texts next to texts: one item deleted, doubled, replaced, inserted, ..., and
   what may stand between items.                                              *)
EXTENDS Meaning

BadLexemes == <<"a--b", "A-", "a-", "#", "$", "%", "_", "~", "`", "\\", "?", "+", "&", "/", "*", "9223372036854775808", "99999999999999999999999", "a--">>
Extras == ReservedWords \o Symbols \o <<"Foo", "E", "Module-Name", "foo", "e", "a-b", "0", "1", "42", "9223372036854775807", "1.5", "2e-3", "10E5">>
Pool == Extras \o BadLexemes
PoolKey == TLCGet(44)
ASSUME TLCSet(44, TLCEval([x \in UNION {{q[i] : i \in 1..Len(q)} : q \in {Pool, UpperPool, LowerPool, NumPool}} |-> KeyOf(x)]))
Key(x) == IF x \in DOMAIN PoolKey THEN PoolKey[x] ELSE KeyOf(x)

\* what may stand between two items, and how many newline characters it has
Gaps == << [s |-> " ", n |-> 0], [s |-> " ", n |-> 0], [s |-> "\n", n |-> 1], [s |-> "\r\n", n |-> 2], [s |-> "\t\n  \n", n |-> 2], [s |-> " -- END { --\n", n |-> 1],
           [s |-> " /* ::= \n /* \n */ BEGIN \f */ ", n |-> 3], [s |-> " -- a -- ", n |-> 0], [s |-> "\f\n", n |-> 2], [s |-> " --\n--\n\n", n |-> 3], [s |-> " /**/ ", n |-> 0],
           [s |-> " -- \r", n |-> 1], [s |-> "  \t ", n |-> 0] >>
FirstGap == << [s |-> "", n |-> 0], [s |-> "\n", n |-> 1], [s |-> "-- x\n", n |-> 1], [s |-> "/* \n */", n |-> 1] >>

Gap(k, i) == IF i = 0 THEN Pick(FirstGap, Mix(k)) ELSE IF k = 0 THEN [s |-> " ", n |-> 0] ELSE Pick(Gaps, Mix(Mix(k) + 13 * i))

RECURSIVE NLs(_, _)   \* newlines before item i (gaps 0..i-1)
NLs(k, i) == IF i = 0 THEN 0 ELSE Gap(k, i - 1).n + NLs(k, i - 1)

Splice(ts, i, del, ins) == SubSeq(ts, 1, i - 1) \o ins \o SubSeq(ts, i + del, Len(ts))
\* one change of ts at position i (1..Len+1); x is an item of the pool
Change(ts, i, what, x) ==
  CASE what = "delete" /\ i <= Len(ts)  -> Splice(ts, i, 1, <<>>)
    [] what = "double" /\ i <= Len(ts)  -> Splice(ts, i, 1, <<ts[i], ts[i]>>)
    [] what = "swap" /\ i < Len(ts)     -> Splice(ts, i, 2, <<ts[i+1], ts[i]>>)
    [] what = "replace" /\ i <= Len(ts) -> Splice(ts, i, 1, <<x>>)
    [] what = "cut"                     -> SubSeq(ts, 1, i - 1)
    [] what = "copy" /\ i <= Len(ts)    -> Append(ts, ts[i])
    [] OTHER                            -> Splice(ts, i, 0, <<x>>)
\* an item written as several: cut in two, or a symbol as its characters, or a name at its hyphen
Chars(x) == [i \in 1..Len(x) |-> SubSeq(x, i, i)]
Breaks(x) == LET n == Len(x)
               two == [c \in 1..(n - 1) |-> <<SubSeq(x, 1, c), SubSeq(x, c + 1, n)>>]
               all == IF x \in {Symbols[i] : i \in 1..Len(Symbols)} THEN (IF n > 2 THEN Append(two, Chars(x)) ELSE two)
                      ELSE LET h == {c \in 2..(n - 1) : SubSeq(x, c, c) = "-"} IN
                           (IF n < 2 THEN <<>> ELSE IF n < 4 THEN <<two[1]>> ELSE <<two[1], two[n \div 2], two[n - 1]>>)
                           \o (IF h = {} THEN <<>> ELSE LET c == CHOOSE c \in h : TRUE IN <<<<SubSeq(x, 1, c - 1), "-", SubSeq(x, c + 1, n)>>>>)
           IN SelectSeq(TLCEval(all), LAMBDA ps : \A i \in 1..Len(ps) : KeyOf(ps[i]) \notin {"bad", "real"})
BreaksOf == TLCGet(58)
ASSUME TLCSet(58, TLCEval([x \in DOMAIN PoolKey |-> IF PoolKey[x] \in {"bad", "real"} THEN <<>> ELSE Breaks(x)]))
\* two items written as one: <<>> if they are still two
Glued(x, y) == LET g == x \o y k == KeyOf(g) IN IF k \in {"bad", "real"} THEN <<>> ELSE <<g>>
\* the other ways to write what stands at position i: how many items they replace, and by what
Respelled(ts, i) == IF i > Len(ts) THEN <<>>
                    ELSE (IF ts[i] \in DOMAIN BreaksOf THEN [c \in 1..Len(BreaksOf[ts[i]]) |-> [del |-> 1, ins |-> BreaksOf[ts[i]][c]]] ELSE <<>>)
                         \o (IF i = Len(ts) THEN <<>> ELSE LET g == Glued(ts[i], ts[i + 1]) IN IF g = <<>> THEN <<>> ELSE <<[del |-> 2, ins |-> g]>>)

Kinds == <<"delete", "double", "swap", "replace", "insert", "cut", "replace", "insert", "delete", "swap", "copy", "replace", "respell">>

RECURSIVE Apply(_, _, _)
Apply(ts, k, n) ==
  IF n = 0 THEN ts
  ELSE LET a == Mix(k + 7 * n) b == Mix(a + 3) c == Mix(b + 5)
           i == 1 + (a % (Len(ts) + 1)) kind == Pick(Kinds, b) rs == IF kind = "respell" THEN TLCEval(Respelled(ts, i)) ELSE <<>>
       IN Apply(TLCEval(IF rs # <<>> THEN LET r == Pick(rs, c) IN Splice(ts, i, r.del, r.ins) ELSE Change(ts, i, kind, Pick(Pool, c))), Mix(c + k), n - 1)

=============================================================================
