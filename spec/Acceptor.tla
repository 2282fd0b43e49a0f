------------------------------ MODULE Acceptor ------------------------------
(* The notation read the other way round: which sequences of items are modules,
   and where a sequence first goes wrong.

   A configuration is what remains to be read: a stack of grammar symbols, and
   whether notation that is not claimed (gray) was needed to get there.
   Advance reads one item in every configuration at once, so the set of
   configurations is empty exactly after the first item that no module can
   continue with.                                                             *)
EXTENDS Grammar, LexRules

\* Valid notation, or notation the implementation tolerates, that is not claimed.
Extra == [ Simple |-> << <<L_("upper"), T_("."), L_("upper")>>, <<T_("EXTERNAL")>>, <<T_("RELATIVE-OID")>>, <<T_("EMBEDDED"), T_("PDV")>>, <<T_("ObjectDescriptor")>> >>,
           Value |-> << <<L_("upper"), T_("."), L_("lower")>>, <<T_("NULL")>>, <<T_("{"), T_("}")>>,
                        <<L_("num"), T_("."), L_("num")>>, <<T_("-"), L_("num"), T_("."), L_("num")>> >>,
           Element |-> << <<T_("FROM"), N_("Constr")>>, <<T_("INCLUDES"), N_("Type")>> >> ]

Keep(alt) == SelectSeq(alt, LAMBDA x : x[1] \in {"t", "l", "n"})
Name(x) == IF x[1] = "n" THEN "<" \o x[2] ELSE x[2]
HasGray(alt) == \E i \in 1..Len(alt) : alt[i] = A_("gray")
Clean(alt, g) == [syms |-> LET k == Keep(alt) IN TLCEval([i \in 1..Len(k) |-> Name(k[i])]), g |-> g \/ HasGray(alt)]
AllAlts(N) == TLCEval([i \in 1..Len(G[N]) |-> Clean(G[N][i], FALSE)])
              \o (IF N \in DOMAIN Extra THEN TLCEval([i \in 1..Len(Extra[N]) |-> Clean(Extra[N][i], TRUE)]) ELSE <<>>)
Written == TLCEval([n \in {"<" \o N : N \in DOMAIN G} |-> AllAlts(CHOOSE N \in DOMAIN G : n = "<" \o N)])
\* Left factoring: alternatives that start alike share that start, so that a configuration
\* does not split before the text tells them apart.
Tails(alts) == TLCEval([i \in 1..Len(alts) |-> [syms |-> Tail(alts[i].syms), g |-> alts[i].g]])
RECURSIVE Factor(_, _)
Factor(n, alts) ==
  LET heads == {alts[i].syms[1] : i \in {j \in 1..Len(alts) : alts[j].syms # <<>>}}
      Group(h) == SelectSeq(alts, LAMBDA a : a.syms # <<>> /\ a.syms[1] = h)
      RECURSIVE Own(_, _)
      Own(hs, acc) == IF hs = {} THEN acc
                      ELSE LET h == CHOOSE x \in hs : TRUE
                               gr == Group(h)
                           IN Own(hs \ {h}, Append(acc, IF Len(gr) = 1 THEN gr[1] ELSE [syms |-> <<h, n \o "/" \o h>>, g |-> \A i \in 1..Len(gr) : gr[i].g]))
      RECURSIVE Subs(_)
      Subs(hs) == IF hs = {} THEN [x \in {} |-> <<>>]
                  ELSE LET h == CHOOSE x \in hs : TRUE
                       IN (IF Len(Group(h)) = 1 THEN [x \in {} |-> <<>>] ELSE Factor(n \o "/" \o h, Tails(Group(h)))) @@ Subs(hs \ {h})
  IN (n :> Own(heads, SelectSeq(alts, LAMBDA a : a.syms = <<>>))) @@ Subs(heads)
RECURSIVE FactorAll(_)
FactorAll(ns) == IF ns = {} THEN [x \in {} |-> <<>>]
                 ELSE LET n == CHOOSE x \in ns : TRUE IN Factor(n, Written[n]) @@ FactorAll(ns \ {n})
ASSUME TLCSet(45, TLCEval(FactorAll(DOMAIN Written)))
Plain == TLCGet(45)
NTs == DOMAIN Plain

\* which symbols may derive nothing, and with which items a derivation may start: least fixed points
RECURSIVE NullFix(_, _)
NullFix(P, S) == LET S1 == {n \in NTs : \E i \in 1..Len(P[n]) : \A j \in 1..Len(P[n][i].syms) : P[n][i].syms[j] \in S}
                 IN IF S1 = S THEN S ELSE NullFix(P, S1)
RECURSIVE FirstSeq(_, _, _)
FirstSeq(syms, F1, nul) ==
  IF syms = <<>> THEN {}
  ELSE IF Head(syms) \notin NTs THEN {Head(syms)}
  ELSE F1[Head(syms)] \cup (IF Head(syms) \in nul THEN FirstSeq(Tail(syms), F1, nul) ELSE {})
RECURSIVE FirstFix(_, _, _)
FirstFix(P, F1, nul) ==
  LET F2 == TLCEval([n \in NTs |-> F1[n] \cup UNION {FirstSeq(P[n][i].syms, F1, nul) : i \in 1..Len(P[n])}])
  IN IF F2 = F1 THEN F1 ELSE FirstFix(P, F2, nul)

Tables == LET P == TLCEval(Plain)
              nul == TLCEval(NullFix(P, {}))
              F1 == TLCEval(FirstFix(P, [n \in NTs |-> {}], nul))
          IN [nul |-> nul,
              alts |-> TLCEval([n \in NTs |-> TLCEval([i \in 1..Len(P[n]) |->
                 [syms |-> P[n][i].syms, g |-> P[n][i].g, first |-> FirstSeq(P[n][i].syms, F1, nul),
                  nul |-> \A j \in 1..Len(P[n][i].syms) : P[n][i].syms[j] \in nul]])])]
ASSUME TLCSet(43, TLCEval(Tables))
AG == TLCGet(43).alts
Nullables == TLCGet(43).nul

----------------------------------------------------------------------------
RECURSIVE Adv(_, _, _)
Adv(s, g, key) ==
  IF s = <<>> THEN {}
  ELSE IF Head(s) \notin NTs THEN (IF Head(s) = key THEN {[s |-> Tail(s), g |-> g]} ELSE {})
  ELSE LET A == AG[Head(s)]
       IN UNION {Adv(A[i].syms \o Tail(s), g \/ A[i].g, key) :
                   i \in {j \in 1..Len(A) : A[j].nul \/ key \in A[j].first}}
Advance(C, key) == UNION {Adv(c.s, c.g, key) : c \in C}

Initial == {[s |-> <<"<Module">>, g |-> FALSE]}
MayEnd(c) == \A i \in 1..Len(c.s) : c.s[i] \in Nullables
Strict(C) == {c \in C : ~c.g}

\* the item a lexeme is, as the grammar sees it
KeyOf(lexeme) ==
  LET r == LexDecl(TLCEval(Codes(lexeme)), 1, FALSE) IN
  IF r.gray \/ r.err # <<>> \/ r.toks = <<>> THEN "bad"
  ELSE IF Len(r.toks) > 1 THEN (IF r.toks[1].k = "num" THEN "real" ELSE "bad")
  ELSE LET t == r.toks[1] IN IF t.k = "tref" THEN "upper" ELSE IF t.k = "id" THEN "lower" ELSE IF t.k = "num" THEN "num" ELSE t.v

(* Reads keys from position i on, in configurations C; strictAt is the first
   position at which only unclaimed notation was left (0: none yet).
   Result: what became of it, and between which positions it went wrong.      *)
RECURSIVE Read(_, _, _, _)
Read(keys, i, C, strictAt) ==
  IF C = {} THEN [v |-> "reject", from |-> strictAt, to |-> i - 1]
  ELSE IF i > Len(keys) THEN
       IF \E c \in Strict(C) : MayEnd(c) THEN [v |-> "accept", from |-> 0, to |-> 0]
       ELSE IF \E c \in C : MayEnd(c) THEN [v |-> "gray", from |-> 0, to |-> 0]
       ELSE [v |-> "reject", from |-> IF strictAt = 0 THEN i ELSE strictAt, to |-> i]
  ELSE IF keys[i] = "bad" THEN [v |-> "reject", from |-> IF strictAt = 0 THEN i ELSE strictAt, to |-> i]
  ELSE LET D == Advance(C, keys[i])
       IN Read(keys, i + 1, D, IF strictAt # 0 THEN strictAt ELSE IF Strict(D) = {} THEN i ELSE 0)
Verdict(keys) == Read(keys, 1, Initial, 0)
=============================================================================
