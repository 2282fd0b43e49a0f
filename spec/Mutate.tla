------------------------------- MODULE Mutate -------------------------------
(* Texts next to the notation: a derived module is changed in one or more
   places, laid out over lines, and judged by the acceptor.                   *)
EXTENDS Gen, Changes

CONSTANTS Mode,     \* "all": every single change; "some": Count changes chosen by the salt
          Count,    \* how many mutants per derivation
          Depth     \* most changes per mutant

Keys(ts) == TLCEval([i \in 1..Len(ts) |-> Key(ts[i])])
ReportOf(ts, keys, k, r, from, D) ==
  [toks |-> ts, gaps |-> [i \in 1..(Len(ts) + 1) |-> Gap(k, i - 1).s], verdict |-> r.v,
   \* a text that is still a module means what its one reading says
   ast |-> IF r.v = "accept" THEN LET m == MRead(ts, keys, from, D) IN IF Assert(Len(m) = 1, ts) THEN m[1][1] ELSE none ELSE none,
   lines |-> IF r.v # "reject" THEN <<>> ELSE
             \* the end of the text counts every newline
             [j \in 1..(r.to - r.from + 1) |-> 1 + NLs(k, r.from + j - 1)]]
Write(rec) == CSVWrite("%1$s", <<ToJson(rec)>>, OutFile)

\* configurations before every position of the original text, so that every change starts from them
RECURSIVE PreConfigs(_, _, _)
PreConfigs(keys, i, acc) == IF i > Len(keys) THEN acc ELSE PreConfigs(keys, i + 1, Append(acc, Advance(acc[i], keys[i])))

RECURSIVE PreReadings(_, _, _, _)
PreReadings(ts, keys, i, acc) == IF i > Len(ts) THEN acc ELSE PreReadings(ts, keys, i + 1, Append(acc, TLCEval(MAdvance(acc[i], keys[i], ItemValue(ts[i], keys[i])))))

RECURSIVE Common(_, _, _)
Common(x, y, i) == IF i > Len(x) \/ i > Len(y) \/ x[i] # y[i] THEN i - 1 ELSE Common(x, y, i + 1)
Some == LET pre == TLCEval(PreConfigs(TLCEval(Keys(out)), 1, <<Initial>>))
            mpre == TLCEval(PreReadings(out, TLCEval(Keys(out)), 1, <<MInitial>>)) IN
        \A m \in 1..Count :
          LET k == Mix(salt + 37 * m + 101 * Len(out))
              ts == TLCEval(Apply(out, k, 1 + (k % Depth)))
              from == Common(out, ts, 1) + 1
              keys == TLCEval(Keys(ts))
              r == TLCEval(Read(keys, from, pre[from], 0))
          IN r.v = "gray" \/ Write(ReportOf(ts, keys, IF m % 8 = 0 THEN 0 ELSE k, r, from, mpre[from]))

Whats == <<"delete", "double", "swap", "cut", "copy">>
\* the kinds of a changed text are the changed kinds of the text
JudgeAt(pre, mpre, i, ts, keys) == LET r == TLCEval(Read(keys, i, pre[i], 0))
                       IN r.v = "gray" \/ Write(ReportOf(ts, keys, salt, r, i, mpre[i]))
JudgeRespelled(pre, mpre, i, own) ==
  LET rs == TLCEval(Respelled(out, i)) IN
  \A q \in 1..Len(rs) : JudgeAt(pre, mpre, i, TLCEval(Splice(out, i, rs[q].del, rs[q].ins)), TLCEval(Splice(own, i, rs[q].del, Keys(rs[q].ins))))
All == LET own == TLCEval(Keys(out))
           pre == TLCEval(PreConfigs(own, 1, <<Initial>>))
           mpre == TLCEval(PreReadings(out, own, 1, <<MInitial>>)) IN
       \A i \in 1..(Len(out) + 1) :
          /\ JudgeRespelled(pre, mpre, i, own)
          /\ \A q \in 1..Len(Whats) : JudgeAt(pre, mpre, i, TLCEval(Change(out, i, Whats[q], "ABSENT")), TLCEval(Change(own, i, Whats[q], Key("ABSENT"))))
          /\ \A x \in 1..Len(Pool) :
               /\ JudgeAt(pre, mpre, i, TLCEval(Change(out, i, "insert", Pool[x])), TLCEval(Change(own, i, "insert", Key(Pool[x]))))
               /\ i > Len(out) \/ JudgeAt(pre, mpre, i, TLCEval(Change(out, i, "replace", Pool[x])), TLCEval(Change(own, i, "replace", Key(Pool[x]))))

Judge == /\ ~done /\ stk = <<>>
         /\ done' = TRUE
         /\ (IF Mode = "all" THEN All ELSE Some) = TRUE   \* evaluated as an expression, not as an action
         /\ UNCHANGED <<stk, out, vs, fuel, salt>>
\* the acceptor reads whatever the grammar derives
AcceptsDerived == (done /\ ~AllowGray) => Verdict(TLCEval(Keys(out))).v = "accept"
\* reading a derived text gives back the one module that was derived
Unambiguous == (done /\ ~AllowGray) => LET m == Readings(out, TLCEval(Keys(out))) IN Len(m) = 1 /\ m[1] = vs
Writes == WriteItem \/ WriteLexeme \/ Reduce \/ PushConst \/ Expand \/ Judge
MSpec == Init /\ [][Writes]_vars
=============================================================================
