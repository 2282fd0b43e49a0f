------------------------------ MODULE CodeGen ------------------------------
(* What is generated from a module.  After a derivation has built the module,
   the translation walks its assignments in order: each step turns one
   assignment into the declarations it stands for, and collects what they need
   and what makes generation impossible.

   A Go type is a record:  [g |-> "bool" | "int" | "string" | "float64" |
   "bytes" | "iface" | "time" | "asn1", n |-> which] , [g |-> "ref", n] (the Go
   type of the declaration of n), [g |-> "slice", e], [g |-> "struct", f].
   "int" stands for whichever representation is configured.                   *)
EXTENDS Gen
LOCAL INSTANCE SequencesExt

VARIABLES tab,     \* where each type name is defined first
          pos, decls, err, gray, uses, ph
cvars == <<stk, out, vs, fuel, salt, done, tab, pos, decls, err, gray, uses, ph>>

Mod == vs[1]
Body == Mod.body
Types == {i \in 1..Len(Body) : Body[i].k = "type"}
Values == {i \in 1..Len(Body) : Body[i].k = "value"}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
ValueOf(n) == LET D == {i \in Values : Body[i].n = n} IN IF D = {} THEN none ELSE Body[Least(D)]
Useful == {"GeneralizedTime", "UTCTime"}

RECURSIVE Bare(_)
Bare(t) == IF t.k \in {"TAG", "CONSTR"} THEN Bare(t.t) ELSE t

\* the first definition of a name is the one that counts; the definition that a definition which is a reference leads to, and so on:
\* ways twice as long, until they are longer than there are definitions
RECURSIVE Farther(_, _)
Farther(way, steps) == IF steps > Len(way) THEN way ELSE Farther(TLCEval([i \in 1..Len(way) |-> way[way[i]]]), 2 * steps)
TableOf(b) == LET at == TLCEval(FoldLeft(LAMBDA m, i : IF b[i].k # "type" \/ b[i].n \in DOMAIN m THEN m ELSE m @@ (b[i].n :> i), [x \in {} |-> 0], TLCEval([i \in 1..Len(b) |-> i])))
                  next == TLCEval([i \in 1..Len(b) |-> IF b[i].k # "type" THEN i
                                       ELSE LET t == Bare(b[i].t) IN IF t.k = "REF" /\ t.n \notin Useful /\ t.n \in DOMAIN at THEN at[t.n] ELSE i])
              IN [at |-> at, last |-> Farther(next, 1)]
NoTable == [at |-> [x \in {} |-> 0], last |-> <<>>]
DefOf(n) == IF n \in DOMAIN tab.at THEN Body[tab.at[n]].t ELSE none
\* what a name finally denotes: a definition that is no reference, a useful time, or nothing
\* (a way that still goes on goes round in a circle)
Final(n) == IF n \in Useful THEN [k |-> "time", n |-> n, t |-> none]
            ELSE IF n \notin DOMAIN tab.at THEN [k |-> "missing", n |-> n, t |-> none]
            ELSE LET d == Body[tab.last[tab.at[n]]] b == Bare(d.t) IN
                 IF b.k # "REF" THEN [k |-> "def", n |-> d.n, t |-> b]
                 ELSE IF b.n \in Useful THEN [k |-> "time", n |-> b.n, t |-> none]
                 ELSE [k |-> "missing", n |-> b.n, t |-> none]
\* the type something finally denotes
Under(t) == LET b == Bare(t) IN IF b.k = "REF" THEN Final(b.n).t ELSE b

RECURSIVE HasTag(_, _)
HasTag(t, seen) ==
  CASE t.k = "TAG" -> TRUE
    [] t.k = "CONSTR" -> HasTag(t.t, seen)
    [] t.k = "REF" -> t.n \notin seen /\ t.n \notin Useful /\ DefOf(t.n) # none /\ HasTag(DefOf(t.n), seen \cup {t.n})
    [] OTHER -> FALSE
RECURSIVE Loose(_)     \* an alternative that names nothing
Loose(t) == CASE t.k = "CONSTR" -> Loose(t.t) [] t.k = "REF" -> Final(t.n).k = "missing" [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Go types.  Results are records
     ty  the Go type            set  it is, or is called, a set
     e   impossible             z    not claimed (may be impossible)
     u   what it uses           rs   the names it refers to                   *)
R0 == [ty |-> [g |-> "bad"], set |-> FALSE, e |-> FALSE, z |-> FALSE, u |-> {}, rs |-> {}]
Go(g) == [R0 EXCEPT !.ty = [g |-> g]]
GoU(g, u) == [R0 EXCEPT !.ty = [g |-> g], !.u = {u}]
Asn1(n) == [R0 EXCEPT !.ty = [g |-> "asn1", n |-> n], !.u = {"asn1"}]
Bad == [R0 EXCEPT !.e = TRUE]
Join(r, ss) == [r EXCEPT !.e = r.e \/ \E i \in 1..Len(ss) : ss[i].e, !.z = r.z \/ \E i \in 1..Len(ss) : ss[i].z,
                         !.u = r.u \cup UNION {ss[i].u : i \in 1..Len(ss)}, !.rs = r.rs \cup UNION {ss[i].rs : i \in 1..Len(ss)}]

StrMark(s) == CASE s = "IA5String" -> <<"ia5">> [] s = "UTF8String" -> <<"utf8">> [] s = "NumericString" -> <<"numeric">> [] OTHER -> <<>>
\* marks of the type of a component, and through a reference
KindMark(t, direct) ==
  CASE t.k = "STR" -> StrMark(t.s)
    [] t.k = "SET" -> <<"set">>
    [] t.k = "SETOF" /\ direct -> <<"set">>
    [] OTHER -> <<>>
TypeMark(b) ==
  IF b.k # "REF" THEN KindMark(b, TRUE)
  ELSE LET d == Final(b.n) IN
       IF d.k = "time" THEN (IF d.n = "UTCTime" THEN <<"utc">> ELSE <<"generalized">>) ELSE KindMark(d.t, FALSE)
RECURSIVE TagMarks(_)
TagMarks(t) ==
  IF t.k = "CONSTR" THEN TagMarks(t.t)
  ELSE IF t.k # "TAG" THEN <<>>
  ELSE (CASE t.cls = "APPLICATION" -> <<"application">> [] t.cls = "PRIVATE" -> <<"private">> [] OTHER -> <<>>)
       \o (IF t.mode = "EXPLICIT" \/ (t.mode = "DEFAULT" /\ Mod.tags = "EXPLICIT") THEN <<"explicit">> ELSE <<>>)
       \o (IF t.num.k = "num" THEN <<"tag:" \o t.num.v>> ELSE <<>>)
       \o TagMarks(t.t)
RECURSIVE TagRefs(_)   \* the tag numbers that are references
TagRefs(t) == IF t.k = "CONSTR" THEN TagRefs(t.t) ELSE IF t.k # "TAG" THEN {} ELSE (IF t.num.k = "dv" THEN {t.num.m} ELSE {}) \cup TagRefs(t.t)
Marks(c) == (IF c.opt \/ c.def # none THEN <<"optional">> ELSE <<>>)
            \o (IF c.def.k = "num" THEN <<"default:" \o c.def.v>> ELSE <<>>)
            \o TagMarks(c.t) \o TypeMark(Bare(c.t))
\* a choice of one alternative is that alternative: whether its marks show is not claimed
LooseMarks(c) == LET b == Under(c.t) IN b.k = "CHOICE" /\ Len(b.alts) = 1
ExternalNums(t) == LET b == Bare(t) IN b.k = "INTEGER" /\ \E i \in 1..Len(b.nums) : b.nums[i].v.k = "dv" /\ b.nums[i].v.m # ""

RECURSIVE GoT(_), Field(_)
GoT(t) ==
  CASE t.k = "BOOLEAN" -> Go("bool")
    [] t.k = "INTEGER" -> GoU("int", "int")
    [] t.k \in {"CHARSTRING", "STR"} -> Go("string")
    [] t.k = "REAL" -> Go("float64")
    [] t.k = "OCTETS" -> Go("bytes")
    [] t.k = "BITS" -> Asn1("BitString")
    [] t.k = "ENUM" -> Asn1("Enumerated")
    [] t.k = "OID" -> Asn1("ObjectIdentifier")
    [] t.k = "ANY" -> Go("iface")
    [] t.k \in {"NULL", "named"} -> Bad
    [] t.k \in {"SEQ", "SET"} ->
         LET cs == t.comps \o t.adds
             fs == TLCEval([i \in 1..Len(cs) |-> Field(cs[i])])
         IN Join([R0 EXCEPT !.ty = [g |-> "struct", f |-> [i \in 1..Len(fs) |-> fs[i].ty]], !.set = t.k = "SET"], fs)
    [] t.k = "SEQOF" -> LET r == GoT(t.t) IN [r EXCEPT !.ty = [g |-> "slice", e |-> r.ty], !.set = FALSE]
    [] t.k = "SETOF" -> LET r == GoT(t.t) IN [r EXCEPT !.ty = [g |-> "slice", e |-> r.ty], !.set = TRUE]
    [] t.k = "TAG" -> LET r == GoT(t.t) IN [r EXCEPT !.z = r.z \/ t.num.k = "dv"]
    [] t.k = "CONSTR" -> GoT(t.t)
    [] t.k = "REF" ->
         LET d == Final(t.n) IN
         CASE d.k = "missing" -> Bad
           [] d.k = "time" -> GoU("time", "time")
           [] d.t.k = "BITS" -> Asn1("BitString")
           [] OTHER -> [R0 EXCEPT !.ty = [g |-> "ref", n |-> d.n], !.rs = {d.n}]
    [] t.k = "CHOICE" ->
         LET z == \E i \in 1..Len(t.alts) : Loose(t.alts[i].t) IN
         IF \E i \in 1..Len(t.alts) : HasTag(t.alts[i].t, {}) THEN [Asn1("RawValue") EXCEPT !.z = z]
         ELSE IF Len(t.alts) = 1 THEN GoT(t.alts[1].t)
         ELSE [Go("iface") EXCEPT !.z = z]
    [] OTHER -> Bad
Field(c) ==
  IF c.k # "comp" THEN Bad
  ELSE LET r == GoT(c.t) IN
       [r EXCEPT !.ty = [n |-> c.n, t |-> r.ty, marks |-> Marks(c), loose |-> LooseMarks(c)],
                 !.set = FALSE,
                 !.e = r.e \/ \E m \in TagRefs(c.t) : m # "",
                 !.z = r.z \/ "" \in TagRefs(c.t) \/ ExternalNums(c.t)]

----------------------------------------------------------------------------
\* declarations
Ill == [R0 EXCEPT !.z = TRUE]
Fits(t, v) == LET b == Under(t) IN
  CASE v.k = "num" -> b.k \in {"INTEGER", "REAL"} [] v.k = "bool" -> b.k = "BOOLEAN" [] v.k = "real" -> b.k = "REAL" [] OTHER -> TRUE
Literal(v) == v.k \in {"num", "bool", "real"}

\* a named number: the value it has, if it has one
NumOf(nn) ==
  IF nn.v.k = "num" THEN [R0 EXCEPT !.ty = nn.v.v]
  ELSE IF nn.v.m # "" THEN Bad
  ELSE LET a == ValueOf(nn.v.n) IN
       IF a = none \/ ~Literal(a.v) THEN Bad
       ELSE IF a.v.k # "num" \/ Under(a.t).k # "INTEGER" THEN [Bad EXCEPT !.e = FALSE, !.z = TRUE]
       ELSE [R0 EXCEPT !.ty = a.v.v]
Numbers(a) == LET b == Bare(a.t) IN IF b.k = "INTEGER" THEN b.nums ELSE <<>>
OfType(a) ==
  LET r == GoT(a.t)
      ns == Numbers(a)
      vals == TLCEval([i \in 1..Len(ns) |-> NumOf(ns[i])])
      j == Join(r, vals)
  IN [ds |-> <<[k |-> "type", n |-> a.n, t |-> r.ty, set |-> r.set]>>
             \o [i \in 1..Len(ns) |-> [k |-> "num", n |-> a.n, nn |-> ns[i].n, t |-> [g |-> "ref", n |-> a.n], v |-> vals[i].ty]],
      r |-> [j EXCEPT !.u = j.u \cup (IF ns = <<>> THEN {} ELSE {"int"})]]
OfValue(a) ==
  IF ~Literal(a.v) THEN [ds |-> <<>>, r |-> R0]
  ELSE LET r == GoT(a.t) IN
       [ds |-> <<[k |-> "val", n |-> a.n, t |-> r.ty, lit |-> a.v.k, v |-> a.v.v]>>,
        r |-> [r EXCEPT !.z = r.z \/ ~Fits(a.t, a.v),
                        !.u = r.u \cup (IF a.v.k = "real" /\ a.v.v \in {"inf", "-inf"} THEN {"math"} ELSE {})]]

\* does a definition, followed through the names it uses, come back to itself?
RECURSIVE Reach(_, _)
Reach(S, D) == LET N == S \cup UNION {D[n] : n \in S} IN IF N = S THEN S ELSE Reach(N, D)
Recursive == LET D == TLCEval([n \in {Body[i].n : i \in Types} |-> GoT(DefOf(n)).rs])
             IN \E i \in Types : Body[i].n \in Reach(GoT(Body[i].t).rs, D)

----------------------------------------------------------------------------
CInit == Init /\ tab = NoTable /\ pos = 1 /\ decls = <<>> /\ err = FALSE /\ gray = FALSE /\ uses = {} /\ ph = "derive"

Derive == /\ ph = "derive" /\ stk # <<>>
          /\ WriteItem \/ WriteLexeme \/ Reduce \/ PushConst \/ Expand
          /\ UNCHANGED <<tab, pos, decls, err, gray, uses, ph>>
Begin == /\ ph = "derive" /\ stk = <<>>
         /\ ph' = "translate" /\ err' = (Mod.tags = "AUTOMATIC") /\ tab' = TLCEval(TableOf(Body))
         /\ UNCHANGED <<stk, out, vs, fuel, salt, done, pos, decls, gray, uses>>
Translate ==
  /\ ph = "translate" /\ pos <= Len(Body)
  /\ LET a == Body[pos]
         d == IF a.k = "type" THEN OfType(a) ELSE OfValue(a)
     IN /\ decls' = decls \o d.ds
        /\ err' = (err \/ d.r.e) /\ gray' = (gray \/ d.r.z) /\ uses' = (uses \cup d.r.u)
  /\ pos' = pos + 1
  /\ UNCHANGED <<tab, stk, out, vs, fuel, salt, done, ph>>
\* the two outcomes: a source, or an error and nothing
Verdict == IF err THEN "error" ELSE IF gray THEN "open" ELSE "source"
Write ==
  /\ ph = "translate" /\ pos > Len(Body)
  /\ ph' = "done" /\ done' = TRUE
  /\ CSVWrite("%1$s", <<ToJson([toks |-> out, ast |-> Mod, verdict |-> Verdict, int |-> "int" \in uses, cyclic |-> ~err /\ Recursive,
                                uses |-> uses \ {"int"}, decls |-> IF err THEN <<>> ELSE decls])>>, OutFile)
  /\ UNCHANGED <<tab, stk, out, vs, fuel, salt, pos, decls, err, gray, uses>>
CNext == Derive \/ Begin \/ Translate \/ Write
CSpec == CInit /\ [][CNext]_cvars

----------------------------------------------------------------------------
\* one type per type assignment, in order
TypeDecls == SelectSeq(decls, LAMBDA d : d.k = "type")
InOrder == ph # "derive" =>
  [i \in 1..Len(TypeDecls) |-> TypeDecls[i].n] =
  LET as == SelectSeq(SubSeq(Body, 1, pos - 1), LAMBDA a : a.k = "type") IN [i \in 1..Len(as) |-> as[i].n]
\* references mean what they finally denote: spelling out one step of any reference changes nothing
OneStep(t) == IF t.k = "REF" /\ t.n \notin Useful /\ DefOf(t.n) # none /\ Bare(DefOf(t.n)).k = "REF" THEN Bare(DefOf(t.n)) ELSE t
RefTransparent == (ph = "translate" /\ pos = 1) =>
  \A i \in Types : LET b == Bare(Body[i].t) IN
     b.k = "REF" => (GoT(b) = GoT(OneStep(b)) /\ TypeMark(b) = TypeMark(OneStep(b)))
\* what is referred to is declared
Closed == ph = "done" /\ ~err => \A i \in 1..Len(decls) : decls[i].t.g = "ref" => \E j \in 1..Len(decls) : decls[j].k = "type" /\ decls[j].n = decls[i].t.n
=============================================================================
