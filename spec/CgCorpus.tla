------------------------------ MODULE CgCorpus ------------------------------
(* What is generated from real modules and from selections of them: the module
   is what the text means (Meaning), the translation is that of CodeGen.       *)
EXTENDS CodeGen, Texts

\* the modules: texts that have a reading of the claimed notation
ItemsFor(k, d) == IF Source = "whole" THEN LET x == CharText(Doc(d).cs) IN x.toks ELSE LET x == ItemText(k) IN x.toks
KeysOf(ts) == TLCEval([i \in 1..Len(ts) |-> KeyC(ts[i])])
Uniq(s) == LET q == TLCEval(s) IN Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
\* names as Go has them
UpperOf == [c \in {SubSeq("abcdefghijklmnopqrstuvwxyz", i, i) : i \in 1..26} |-> LET i == CHOOSE i \in 1..26 : SubSeq("abcdefghijklmnopqrstuvwxyz", i, i) = c IN SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i, i)]
RECURSIVE Under_(_)
Under_(s) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) = "-" THEN "_" ELSE SubSeq(s, 1, 1)) \o Under_(SubSeq(s, 2, Len(s)))
GoName(s) == LET h == SubSeq(s, 1, 1) IN (IF h \in DOMAIN UpperOf THEN UpperOf[h] ELSE h) \o Under_(SubSeq(s, 2, Len(s)))
Names(ds) == FoldLeft(LAMBDA acc, d : acc \o (CASE d.k = "type" -> <<GoName(d.n)>> \o (IF d.set THEN <<GoName(d.n) \o "SET">> ELSE <<>>)
                                                [] d.k = "num" -> <<GoName(d.n) \o "Val" \o GoName(d.nn)>>
                                                [] OTHER -> <<"Val" \o GoName(d.n)>>), <<>>, ds)
RECURSIVE Separate(_)    \* no struct has two fields of one name
Separate(t) == CASE t.g = "slice" -> Separate(t.e)
                 [] t.g = "struct" -> (\A i \in 1..Len(t.f) : Separate(t.f[i].t)) /\ Uniq(TLCEval([i \in 1..Len(t.f) |-> GoName(t.f[i].n)]))
                 [] OTHER -> TRUE
\* claimed only for distinct names
Distinct == Uniq(Names(decls)) /\ \A i \in 1..Len(decls) : Separate(decls[i].t)

\* names defined twice are not claimed, in whatever comes of it
Twice == ~Uniq([i \in 1..Len(Body) |-> Body[i].n])
FromText(k, d) == LET ts == TLCEval(ItemsFor(k, d))
                      ms == TLCEval(Readings(ts, KeysOf(ts)))
                      IN IF Len(ms) = 1 THEN [toks |-> ts, vs |-> ms[1]] ELSE [toks |-> <<>>, vs |-> <<>>]
TInit == /\ \E k \in TextLo..TextHi : \E d \in (IF Source = "whole" THEN Docs ELSE {0}) :
              \E x \in {TLCEval(FromText(k, d))} : x.vs # <<>> /\ out = x.toks /\ vs = x.vs
              /\ salt = 20 * k + d
         /\ stk = <<>> /\ fuel = 0 /\ done = FALSE
         /\ tab = NoTable /\ pos = 1 /\ decls = <<>> /\ err = FALSE /\ gray = FALSE /\ uses = {} /\ ph = "derive"
TWrite ==
  /\ ph = "translate" /\ pos > Len(Body)
  /\ ph' = "done" /\ done' = TRUE
  /\ LET v == IF Twice \/ (~err /\ ~Distinct) THEN "open" ELSE Verdict IN
     CSVWrite("%1$s", <<ToJson([toks |-> out, ast |-> Mod, verdict |-> v, int |-> "int" \in uses, cyclic |-> ~err /\ v # "open" /\ Recursive,
                                uses |-> uses \ {"int"}, decls |-> IF v # "source" THEN <<>> ELSE decls])>>, OutFile)
  /\ UNCHANGED <<tab, stk, out, vs, fuel, salt, pos, decls, err, gray, uses>>
\* what is generated follows from the text: states are told apart by text and place
View == <<salt, pos, ph>>
TSpec == TInit /\ [][Begin \/ Translate \/ TWrite]_cvars
=============================================================================
