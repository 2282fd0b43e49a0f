-------------------------------- MODULE Plan --------------------------------
(* Every place of the notation: for every occurrence of a nonterminal in an
   alternative of another, and every alternative it has there, a text that
   reaches it by the shortest way.  Derivations go as in Gen, but a plan leads
   to the place: the marked symbol <<"m", N>> takes the alternative planned for
   it and marks the planned symbol in it; at the end of the plan it takes any.
   Symbols beside the way are derived by their first alternatives, or, as far as
   there is fuel, by any.                                                      *)
EXTENDS Gen

CONSTANTS Part, Parts,   \* which share of the places
          Deep           \* 1: one free choice at the end of the plan; 2: a second one within the first, ...

VARIABLES plan,          \* pairs of an alternative and the place of the marked symbol in it
          left,          \* free choices left
          from, to       \* where the text of the place begins and ends
pvars == <<plan, left, from, to>>

Derivable(alt) == AllowGray \/ ~IsGray(alt)
Known(N) == {i \in 1..Len(Alts(N)) : Derivable(Alts(N)[i])}
Children(alt) == {j \in 1..Len(alt) : alt[j][1] = "n"}
RECURSIVE Ways(_)
Ways(f) == LET Steps == UNION {UNION {{<<P, i, j>> : j \in {j \in Children(Alts(P)[i]) : Alts(P)[i][j][2] \notin DOMAIN f}} : i \in Known(P)} : P \in DOMAIN f}
               New == {Alts(s[1])[s[2]][s[3]][2] : s \in Steps}
           IN IF New = {} THEN f
              ELSE Ways(TLCEval(f @@ [N \in New |-> LET s == CHOOSE x \in Steps : Alts(x[1])[x[2]][x[3]][2] = N IN Append(f[s[1]], <<s[2], s[3]>>)]))
\* a plan begins with a symbol of the start form
Roots == Children(Start)
ASSUME TLCSet(56, TLCEval(Ways([N \in {Start[j][2] : j \in Roots} |-> <<<<0, CHOOSE j \in Roots : Start[j][2] = N>>>>])))
Way == TLCGet(56)
Places == {<<<<0, j>>>> : j \in Roots} \cup UNION {UNION {{Append(Way[P], <<i, j>>) : j \in Children(Alts(P)[i])} : i \in Known(P)} : P \in DOMAIN Way}
Numbered == TLCEval(LET RECURSIVE Num(_, _, _)
                        Num(S, n, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE x \in S : TRUE IN Num(S \ {x}, n + 1, Append(acc, x))
                    IN Num(Places, 1, <<>>))
ASSUME TLCSet(57, Numbered)

Mark(alt, j) == [alt EXCEPT ![j] = <<"m", alt[j][2]>>]
PInit == /\ salt \in SaltLo..SaltHi /\ fuel \in FuelLo..FuelHi
         /\ \E n \in {n \in 1..Len(TLCGet(57)) : n % Parts = Part} :
              plan = Tail(TLCGet(57)[n]) /\ stk = Mark(Start, TLCGet(57)[n][1][2])
         /\ out = <<>> /\ vs = <<>> /\ done = FALSE /\ left = Deep /\ from = 0 /\ to = 0

Lead == /\ Live /\ Sym[1] = "m" /\ plan # <<>>
        /\ stk' = Mark(Alts(Sym[2])[plan[1][1]], plan[1][2]) \o Tail(stk) /\ plan' = Tail(plan)
        /\ UNCHANGED <<out, vs, fuel, salt, done, left, from, to>>
\* the place: any alternative; a second choice within it goes into any of its symbols
Choose == /\ Live /\ Sym[1] = "m" /\ plan = <<>>
          /\ \E i \in Known(Sym[2]) :
               LET alt == Alts(Sym[2])[i] C == IF left > 1 THEN Children(alt) ELSE {} IN
               IF C = {} THEN stk' = alt \o <<<<"e", "">>>> \o Tail(stk) /\ left' = 0
               ELSE \E j \in C : stk' = Mark(alt, j) \o Tail(stk) /\ left' = left - 1
          /\ from' = IF from = 0 THEN Len(out) + 1 ELSE from
          /\ UNCHANGED <<out, vs, fuel, salt, done, plan, to>>
Place == /\ Live /\ Sym[1] = "e" /\ to' = Len(out) /\ stk' = Tail(stk)
         /\ UNCHANGED <<out, vs, fuel, salt, done, plan, left, from>>
Beside == /\ Live /\ Sym[1] = "n"
          /\ LET N == Sym[2] k == Mix(salt + 131 * Len(out) + 7 * Len(stk))
                 i == IF fuel = 0 \/ k % 3 # 0 THEN 1 ELSE 1 + ((k \div 3) % Len(Alts(N)))
                 a == IF Derivable(Alts(N)[i]) THEN i ELSE 1
             IN stk' = Alts(N)[a] \o Tail(stk) /\ fuel' = IF a = 1 THEN fuel ELSE fuel - 1
          /\ UNCHANGED <<out, vs, salt, done, plan, left, from, to>>
Still == UNCHANGED pvars
PNext == (WriteItem /\ Still) \/ (WriteLexeme /\ Still) \/ (Reduce /\ Still) \/ (PushConst /\ Still) \/ Lead \/ Choose \/ Place \/ Beside
\* every plan is carried out
Reached == stk = <<>> => plan = <<>> /\ left = 0 /\ from > 0
=============================================================================
