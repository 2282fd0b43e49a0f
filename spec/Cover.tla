------------------------------- MODULE Cover -------------------------------
(* Every place of the notation (Plan), the text of the module changed at that
   place, and what the acceptor says of it.                                    *)
EXTENDS Mutate, Plan

CONSTANT Picks          \* how many items of the pool are tried at a position; 0: all

\* every nonterminal is reached but by way of notation that is not claimed
ASSUME Form = "module" => DOMAIN G \ DOMAIN Way = {"Version"}

NearEdits == <<"delete", "double", "swap">>
Around == LET own == TLCEval(Keys(out))
              pre == TLCEval(PreConfigs(own, 1, <<Initial>>))
              mpre == TLCEval(PreReadings(out, own, 1, <<MInitial>>))
              lo == IF from > 1 THEN from - 1 ELSE 1
              hi == IF to + 1 > Len(out) THEN Len(out) ELSE to + 1 IN
          /\ Write([toks |-> out, gaps |-> [i \in 1..(Len(out) + 1) |-> Gap(salt, i - 1).s], verdict |-> "accept", ast |-> vs[1], lines |-> <<>>])
          /\ \A i \in lo..hi :
             /\ JudgeRespelled(pre, mpre, i, own)
             /\ \A q \in 1..Len(NearEdits) : JudgeAt(pre, mpre, i, TLCEval(Change(out, i, NearEdits[q], "ABSENT")), TLCEval(Change(own, i, NearEdits[q], Key("ABSENT"))))
             /\ \A x \in (IF Picks = 0 THEN 1..Len(Pool) ELSE {1 + (Mix(salt + 57 * q + 1009 * i + 31 * Len(out) + 3 * from + to) % Len(Pool)) : q \in 1..Picks}) :
                  /\ JudgeAt(pre, mpre, i, TLCEval(Change(out, i, "insert", Pool[x])), TLCEval(Change(own, i, "insert", Key(Pool[x]))))
                  /\ JudgeAt(pre, mpre, i, TLCEval(Change(out, i, "replace", Pool[x])), TLCEval(Change(own, i, "replace", Key(Pool[x]))))
Report == /\ ~done /\ stk = <<>> /\ done' = TRUE
          /\ (IF Mode = "text" THEN Write([toks |-> out, gaps |-> [i \in 1..(Len(out) + 1) |-> " "], verdict |-> "accept", ast |-> vs[1], lines |-> <<>>]) ELSE Around) = TRUE
          /\ UNCHANGED <<stk, out, vs, fuel, salt, plan, left, from, to>>
CNext == PNext \/ Report
CSpec == PInit /\ [][CNext]_<<vars, pvars>>
=============================================================================
