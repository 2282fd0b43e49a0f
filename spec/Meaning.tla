------------------------------ MODULE Meaning ------------------------------
(* What a text means, read from the text: the grammar's semantic actions run
   while its items are read.

   A reading is a stack of symbols (with their actions) still to be met and the
   stack of values built so far.  All readings of the claimed notation advance
   together, item by item; a module has exactly one reading that reaches its
   end, and its value is the meaning of the text.                             *)
EXTENDS Acceptor

Claimed == TLCEval([N \in DOMAIN G |-> SelectSeq(G[N], LAMBDA alt : ~HasGray(alt))])
MTails(alts) == TLCEval([i \in 1..Len(alts) |-> Tail(alts[i])])
\* alternatives that start with the same symbols and actions share them
RECURSIVE MFactor(_, _)
MFactor(n, alts) ==
  LET Sig(i) == ToString(alts[i][1])
      idx == SelectSeq(TLCEval([i \in 1..Len(alts) |-> i]), LAMBDA i : alts[i] # <<>>)
      firsts == SelectSeq(idx, LAMBDA i : \A j \in 1..(i - 1) : alts[j] = <<>> \/ Sig(j) # Sig(i))
      Group(i) == LET same == SelectSeq(idx, LAMBDA j : Sig(j) = Sig(i)) IN TLCEval([q \in 1..Len(same) |-> alts[same[q]]])
      Sub(i) == n \o "/" \o Sig(i)
      Own == TLCEval([q \in 1..Len(firsts) |-> LET gr == Group(firsts[q]) IN IF Len(gr) = 1 THEN gr[1] ELSE <<gr[1][1], N_(Sub(firsts[q]))>>])
      RECURSIVE Subs(_)
      Subs(q) == IF q > Len(firsts) THEN [x \in {} |-> <<>>]
                 ELSE (IF Len(Group(firsts[q])) = 1 THEN [x \in {} |-> <<>>] ELSE MFactor(Sub(firsts[q]), MTails(Group(firsts[q])))) @@ Subs(q + 1)
  IN (n :> (Own \o SelectSeq(alts, LAMBDA a : a = <<>>))) @@ Subs(1)
RECURSIVE MFactorAll(_)
MFactorAll(ns) == IF ns = {} THEN [x \in {} |-> <<>>]
                  ELSE LET n == CHOOSE x \in ns : TRUE IN MFactor(n, Claimed[n]) @@ MFactorAll(ns \ {n})
ASSUME TLCSet(50, TLCEval(MFactorAll(DOMAIN Claimed)))
MPlain == TLCGet(50)

MNull(x, S) == x[1] \in {"a", "p"} \/ (x[1] = "n" /\ x[2] \in S)
RECURSIVE MNullFix(_, _)
MNullFix(P, S) == LET S1 == {n \in DOMAIN P : \E i \in 1..Len(P[n]) : \A j \in 1..Len(P[n][i]) : MNull(P[n][i][j], S)}
                  IN IF S1 = S THEN S ELSE MNullFix(P, S1)
RECURSIVE MFirstSeq(_, _, _)
MFirstSeq(syms, F1, nul) ==
  IF syms = <<>> THEN {}
  ELSE LET x == Head(syms) IN
       IF x[1] \in {"t", "l"} THEN {x[2]}
       ELSE (IF x[1] = "n" THEN F1[x[2]] ELSE {}) \cup (IF MNull(x, nul) THEN MFirstSeq(Tail(syms), F1, nul) ELSE {})
RECURSIVE MFirstFix(_, _, _)
MFirstFix(P, F1, nul) ==
  LET F2 == TLCEval([n \in DOMAIN P |-> F1[n] \cup UNION {MFirstSeq(P[n][i], F1, nul) : i \in 1..Len(P[n])}])
  IN IF F2 = F1 THEN F1 ELSE MFirstFix(P, F2, nul)
MTables == LET P == TLCEval(MPlain)
               nul == TLCEval(MNullFix(P, {}))
               F1 == TLCEval(MFirstFix(P, [n \in DOMAIN P |-> {}], nul))
           IN [n \in DOMAIN P |-> TLCEval([i \in 1..Len(P[n]) |->
                 [syms |-> P[n][i], first |-> MFirstSeq(P[n][i], F1, nul), nul |-> \A j \in 1..Len(P[n][i]) : MNull(P[n][i][j], nul)]])]
ASSUME TLCSet(51, TLCEval(MTables))
MG == TLCGet(51)

----------------------------------------------------------------------------
RECURSIVE MAdv(_, _, _, _), MAlts(_, _, _, _, _)
\* the readings <s, v> after the item with this key and value
MAdv(s, v, key, val) ==
  IF s = <<>> THEN <<>>
  ELSE LET x == Head(s) IN
    CASE x[1] = "a" -> MAdv(Tail(s), TLCEval(Act(x[2], v)), key, val)
      [] x[1] = "p" -> MAdv(Tail(s), TLCEval(Append(v, x[2])), key, val)
      [] x[1] = "t" -> IF x[2] = key THEN << [s |-> Tail(s), v |-> v] >> ELSE <<>>
      [] x[1] = "l" -> IF x[2] = key THEN << [s |-> Tail(s), v |-> Append(v, val)] >> ELSE <<>>
      [] x[1] = "n" -> MAlts(MG[x[2]], 1, Tail(s), v, <<key, val>>)
MAlts(A, i, rest, v, it) ==
  IF i > Len(A) THEN <<>>
  ELSE (IF A[i].nul \/ it[1] \in A[i].first THEN MAdv(A[i].syms \o rest, v, it[1], it[2]) ELSE <<>>) \o MAlts(A, i + 1, rest, v, it)
RECURSIVE MEnd(_, _), MEndAlts(_, _, _, _)
\* the values of the readings that may end here
MEnd(s, v) ==
  IF s = <<>> THEN << v >>
  ELSE LET x == Head(s) IN
    CASE x[1] = "a" -> MEnd(Tail(s), TLCEval(Act(x[2], v)))
      [] x[1] = "p" -> MEnd(Tail(s), TLCEval(Append(v, x[2])))
      [] x[1] \in {"t", "l"} -> <<>>
      [] x[1] = "n" -> MEndAlts(MG[x[2]], 1, Tail(s), v)
MEndAlts(A, i, rest, v) ==
  IF i > Len(A) THEN <<>> ELSE (IF A[i].nul THEN MEnd(A[i].syms \o rest, v) ELSE <<>>) \o MEndAlts(A, i + 1, rest, v)
RECURSIVE Both(_, _, _, _)
Both(D, i, key, val) == IF i > Len(D) THEN <<>> ELSE MAdv(D[i].s, D[i].v, key, val) \o Both(D, i + 1, key, val)
MInitial == << [s |-> <<N_("Module")>>, v |-> <<>>] >>
MAdvance(D, key, val) == Both(D, 1, key, val)
RECURSIVE MFinal(_, _)
MFinal(D, i) == IF i > Len(D) THEN <<>> ELSE MEnd(D[i].s, D[i].v) \o MFinal(D, i + 1)

\* the value of a lexeme
MSplit(cs, set) == SelectSeq(TLCEval([i \in 1..Len(cs) |-> i]), LAMBDA i : cs[i] \in set)
RealOf(s) ==
  LET cs == TLCEval(Codes(s))
      es == MSplit(cs, {69, 101})
      m == IF es = <<>> THEN cs ELSE SubSeq(cs, 1, es[1] - 1)
      e == IF es = <<>> THEN <<>> ELSE SubSeq(cs, es[1] + 1, Len(cs))
      ds == MSplit(m, {46})
      int == IF ds = <<>> THEN m ELSE SubSeq(m, 1, ds[1] - 1)
      frac == IF ds = <<>> THEN <<>> ELSE SubSeq(m, ds[1] + 1, Len(m))
      D(q) == [i \in 1..Len(q) |-> q[i] - 48]
      neg == e # <<>> /\ e[1] = 45
      ed == IF neg THEN Tail(e) ELSE e
      RECURSIVE IntOf(_, _)
      IntOf(q, acc) == IF q = <<>> THEN acc ELSE IntOf(Tail(q), 10 * acc + Head(q) - 48)
      ex == IntOf(ed, 0)
  IN NormalReal(D(int), D(frac), IF neg THEN -ex ELSE ex)
ItemValue(lexeme, key) ==
  CASE key = "num" -> NumText(Codes(lexeme))
    [] key = "real" -> RealOf(lexeme)
    [] OTHER -> lexeme

\* the values of all readings of a text
MRead(ts, keys, from, D0) ==
  MFinal(FoldLeft(LAMBDA D, i : IF D = <<>> THEN D ELSE TLCEval(MAdvance(D, keys[i], ItemValue(ts[i], keys[i]))), D0, TLCEval([q \in 1..(Len(ts) - from + 1) |-> from + q - 1])), 1)
Readings(ts, keys) == MRead(ts, keys, 1, MInitial)
=============================================================================
