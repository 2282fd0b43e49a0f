-------------------------------- MODULE Der --------------------------------
(* X.690 distinguished encodings of the values of the types of a module, as
   octet sequences.  Values are records:
     [k |-> "bool", v]   [k |-> "int", v |-> decimal, b |-> content octets]
     [k |-> "oid", v |-> arcs]   [k |-> "octets", v]   [k |-> "bits", v, u |-> unused]
     [k |-> "str", v |-> codes]  [k |-> "time", v |-> [y,mo,d,h,mi,s]]
     [k |-> "seq", v |-> values in the order of the components]
     [k |-> "list", v |-> values]  [k |-> "alt", i, v]  [k |-> "absent"]
   DefOf, Mod: the module's definitions and tagging default, from CodeGen.     *)
EXTENDS CodeGen, X690

\* the value a component has when it is absent and has a default
SameAsDefault(c, v) == c.def.k = "num" /\ v.k = "int" /\ v.v = c.def.v

ModeOf(t) == IF t.mode = "DEFAULT" THEN Mod.tags ELSE t.mode
RECURSIVE Enc(_, _), EncComps(_, _, _)
Enc(t, v) ==
  CASE t.k = "CONSTR" -> Enc(t.t, v)
    [] t.k = "TAG" -> LET e == Enc(t.t, v) n == t.num.n IN
         IF ModeOf(t) = "IMPLICIT" /\ Under(t.t).k # "CHOICE" /\ Under(t.t).k # "ANY" THEN Retag(e, t.cls, n) ELSE TLV(t.cls, TRUE, n, e)
    [] t.k = "REF" /\ t.n = "UTCTime" -> TLV("UNIVERSAL", FALSE, 23, YMD(v.v, FALSE))
    [] t.k = "REF" /\ t.n = "GeneralizedTime" -> TLV("UNIVERSAL", FALSE, 24, YMD(v.v, TRUE))
    [] t.k = "REF" -> Enc(DefOf(t.n), v)
    [] t.k = "BOOLEAN" -> TLV("UNIVERSAL", FALSE, 1, <<IF v.v THEN 255 ELSE 0>>)
    [] t.k = "INTEGER" -> TLV("UNIVERSAL", FALSE, 2, v.b)
    [] t.k = "BITS" -> TLV("UNIVERSAL", FALSE, 3, <<v.u>> \o v.v)
    [] t.k = "OCTETS" -> TLV("UNIVERSAL", FALSE, 4, v.v)
    [] t.k = "NULL" -> TLV("UNIVERSAL", FALSE, 5, <<>>)
    [] t.k = "OID" -> TLV("UNIVERSAL", FALSE, 6, Flatten(<<Base128(40 * v.v[1] + v.v[2])>> \o [i \in 1..(Len(v.v) - 2) |-> Base128(v.v[i + 2])]))
    [] t.k = "ENUM" -> TLV("UNIVERSAL", FALSE, 10, v.b)
    [] t.k = "STR" -> TLV("UNIVERSAL", FALSE, StrTag(t.s), v.v)
    [] t.k = "SEQ" -> TLV("UNIVERSAL", TRUE, 16, Flatten(EncComps(t.comps \o t.adds, v.v, 1)))
    [] t.k = "SET" -> TLV("UNIVERSAL", TRUE, 17, Flatten(EncComps(t.comps \o t.adds, v.v, 1)))
    [] t.k = "SEQOF" -> TLV("UNIVERSAL", TRUE, 16, Flatten([i \in 1..Len(v.v) |-> Enc(t.t, v.v[i])]))
    [] t.k = "SETOF" -> TLV("UNIVERSAL", TRUE, 17, Flatten(Sorted([i \in 1..Len(v.v) |-> Enc(t.t, v.v[i])])))
    [] t.k = "CHOICE" -> Enc(t.alts[v.i].t, v.v)
EncComps(cs, vals, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE <<IF vals[i].k = "absent" \/ SameAsDefault(cs[i], vals[i]) THEN <<>> ELSE Enc(cs[i].t, vals[i])>> \o EncComps(cs, vals, i + 1)

\* tags in the canonical order of X.680 8.6: UNIVERSAL, APPLICATION, context, PRIVATE
RECURSIVE TagOf(_)
TagOf(t) == CASE t.k = "CONSTR" -> TagOf(t.t)
              [] t.k = "TAG" -> <<ClassBits(t.cls), t.num.n>>
              [] t.k = "REF" /\ t.n = "UTCTime" -> <<0, 23>> [] t.k = "REF" /\ t.n = "GeneralizedTime" -> <<0, 24>>
              [] t.k = "REF" -> TagOf(DefOf(t.n))
              [] t.k = "BOOLEAN" -> <<0, 1>> [] t.k = "INTEGER" -> <<0, 2>> [] t.k = "BITS" -> <<0, 3>> [] t.k = "OCTETS" -> <<0, 4>> [] t.k = "NULL" -> <<0, 5>>
              [] t.k = "OID" -> <<0, 6>> [] t.k = "ENUM" -> <<0, 10>> [] t.k = "STR" -> <<0, StrTag(t.s)>>
              [] t.k \in {"SEQ", "SEQOF"} -> <<0, 16>> [] t.k \in {"SET", "SETOF"} -> <<0, 17>> [] OTHER -> <<999, 0>>
TagLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

=============================================================================
