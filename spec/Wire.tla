-------------------------------- MODULE Wire --------------------------------
(* Values of generated types on the wire: modules, values of their first type,
   and the octets X.690 prescribes for them.  Only what encoding/asn1 can
   represent is claimed: Plain says what that is.                              *)
EXTENDS Der

CONSTANT Count     \* values per type

\* ------------------------------------------------------------ what is claimed
RECURSIVE Unwrap(_)
Unwrap(t) == IF t.k = "CONSTR" THEN Unwrap(t.t) ELSE t
\* the tags an encoding may start with
RECURSIVE TagsOf(_)
TagsOf(t) == LET b == Unwrap(t) IN
             IF b.k = "REF" /\ b.n \notin Useful THEN TagsOf(DefOf(b.n))
             ELSE IF b.k = "CHOICE" THEN UNION {TagsOf(b.alts[i].t) : i \in 1..Len(b.alts)} ELSE {TagOf(b)}
SortedTags(cs) == \A i, j \in 1..Len(cs) : i < j => \A x \in TagsOf(cs[i].t), y \in TagsOf(cs[j].t) : TagLess(x, y)
\* X.680 24.5: what may be absent and what follows it differ in their tags
May(c) == c.opt \/ c.def # none
DistinctTags(cs) == \A i, j \in 1..Len(cs) : (i < j /\ \A k \in i..(j - 1) : May(cs[k])) => TagsOf(cs[i].t) \cap TagsOf(cs[j].t) = {}
Distinct(ts) == \A i, j \in 1..Len(ts) : i # j => TagsOf(ts[i].t) \cap TagsOf(ts[j].t) = {}
Alternatives(t) == Under(t).k \in {"CHOICE", "ANY"}
RECURSIVE Claimed(_, _, _), ClaimedComp(_, _)
\* place: "comp" a component, annotations possible; "elem" an element of a list or the outermost type, none possible
Claimed(t, place, seen) ==
  CASE t.k = "CONSTR" -> Claimed(t.t, place, seen)
    [] t.k = "TAG" -> FALSE
    [] t.k \in {"BOOLEAN", "INTEGER", "ENUM", "OID", "OCTETS"} -> TRUE
    [] t.k = "BITS" -> t.bits = <<>>
    [] t.k = "STR" -> t.s = "PrintableString" \/ (place = "comp" /\ t.s \in {"IA5String", "UTF8String", "NumericString"})
    [] t.k = "REF" /\ t.n \in Useful -> place = "comp" \/ t.n = "UTCTime"
    [] t.k = "REF" -> /\ t.n \notin seen
                      \* a list that is a set shows it in its name; but only its own name, not that of a list around it
                      /\ Claimed(DefOf(t.n), IF Bare(DefOf(t.n)).k = "SETOF" THEN "comp" ELSE place, seen \cup {t.n})
    [] t.k = "SEQ" -> LET cs == t.comps \o t.adds IN DistinctTags(cs) /\ \A i \in 1..Len(cs) : ClaimedComp(cs[i], seen)
    [] t.k = "SET" -> LET cs == t.comps \o t.adds IN place = "comp" /\ SortedTags(cs) /\ \A i \in 1..Len(cs) : ClaimedComp(cs[i], seen)
    [] t.k = "SEQOF" -> Claimed(t.t, "elem", seen)
    [] t.k = "SETOF" -> place = "comp" /\ Claimed(t.t, "elem", seen)
    \* a raw value is any encoding; a choice of untagged simple types holds the Go value
    [] t.k = "CHOICE" -> /\ place # "alt" /\ Len(t.alts) > 1
                         /\ Distinct(t.alts)
                         /\ \/ \A i \in 1..Len(t.alts) : t.alts[i].t.k = "TAG" /\ t.alts[i].t.num.k = "num" /\ t.alts[i].t.cls # "UNIVERSAL" /\ t.alts[i].t.t.k # "TAG"
                                                           /\ ~Alternatives(t.alts[i].t.t) /\ Claimed(t.alts[i].t.t, "comp", seen)
                            \/ /\ place = "comp" /\ ~\E i \in 1..Len(t.alts) : HasTag(t.alts[i].t, {})
                               /\ \A i \in 1..Len(t.alts) : t.alts[i].t.k \in {"INTEGER", "OID", "OCTETS"}
                               /\ \A i, j \in 1..Len(t.alts) : i # j => t.alts[i].t.k # t.alts[j].t.k
    [] OTHER -> FALSE
ClaimedComp(c, seen) ==
  /\ c.k = "comp"
  /\ c.def = none \/ (c.def.k = "num" /\ Under(c.t).k = "INTEGER")
  /\ LET u == Unwrap(c.t) IN
     IF u.k = "TAG" THEN /\ u.num.k = "num" /\ u.num.n < 100000 /\ u.cls # "UNIVERSAL" /\ ~Alternatives(u.t) /\ Claimed(u.t, "comp", seen)
                         /\ Unwrap(u.t).k # "TAG"
     ELSE Claimed(u, "comp", seen) /\ ~(Alternatives(u) /\ (c.opt \/ c.def # none))
\* lists of lists whose inner lists are sets are only claimed by name
RECURSIVE InnerSets(_)
InnerSets(t) == CASE t.k \in {"CONSTR", "TAG"} -> InnerSets(t.t)
                  [] t.k \in {"SEQOF", "SETOF"} -> Bare(t.t).k \in {"SETOF", "SET"} \/ InnerSets(t.t)
                  [] OTHER -> FALSE

\* ------------------------------------------------------------ values
IntV(n) == [k |-> "int", v |-> ToString(n), b |-> IntContent(n)]
Ints == <<IntV(1), IntV(0), IntV(-1), IntV(127), IntV(128), IntV(-128), IntV(-129), IntV(255), IntV(256), IntV(32767), IntV(32768), IntV(-32768), IntV(-32769), IntV(8388607), IntV(8388608),
          IntV(2147483647), IntV(-2147483647), IntV(5), IntV(10), IntV(65536),
          [k |-> "int", v |-> "9223372036854775807", b |-> <<127, 255, 255, 255, 255, 255, 255, 255>>],
          [k |-> "int", v |-> "-9223372036854775808", b |-> <<128, 0, 0, 0, 0, 0, 0, 0>>],
          [k |-> "int", v |-> "4294967296", b |-> <<1, 0, 0, 0, 0>>] >>
Rep(x, n) == [i \in 1..n |-> x]
Octs == << <<1>>, <<0>>, <<255, 0, 128>>, <<>>, Rep(7, 127), Rep(170, 128), Rep(0, 300) >>
BitVs == << [k |-> "bits", v |-> <<128>>, u |-> 7], [k |-> "bits", v |-> <<1>>, u |-> 0], [k |-> "bits", v |-> <<160>>, u |-> 4], [k |-> "bits", v |-> <<255, 254>>, u |-> 1], [k |-> "bits", v |-> Rep(85, 140), u |-> 0],
            [k |-> "bits", v |-> <<>>, u |-> 0] >>
Oids == << <<1, 2, 840, 113549>>, <<2, 5, 4, 3>>, <<0, 9, 2342>>, <<1, 39>>, <<2, 47, 128, 16384, 2097151>>, <<2, 999, 3>> >>
Texts(s) == CASE s = "NumericString" -> << <<49>>, <<49, 32, 50, 51>>, Rep(57, 130) >>
              [] s = "IA5String" -> << <<97>>, <<42, 64, 126, 0, 127>>, Rep(35, 200) >>
              [] s = "UTF8String" -> << <<97>>, <<195, 169>>, <<226, 130, 172, 32, 240, 157, 132, 158>>, Rep(97, 130) >>
              [] OTHER -> << <<65>>, <<65, 98, 32, 39, 40, 41, 43, 44, 45, 46, 47, 58, 61, 63>>, Rep(90, 128) >>
Times == << [y |-> 2024, mo |-> 2, d |-> 29, h |-> 23, mi |-> 59, s |-> 58], [y |-> 1985, mo |-> 11, d |-> 6, h |-> 21, mi |-> 6, s |-> 27], [y |-> 1999, mo |-> 12, d |-> 31, h |-> 0, mi |-> 0, s |-> 0],
            [y |-> 2049, mo |-> 1, d |-> 1, h |-> 12, mi |-> 30, s |-> 9], [y |-> 1950, mo |-> 7, d |-> 4, h |-> 1, mi |-> 2, s |-> 3] >>
Late == << [y |-> 2050, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0], [y |-> 1949, mo |-> 12, d |-> 31, h |-> 23, mi |-> 59, s |-> 59], [y |-> 9999, mo |-> 12, d |-> 31, h |-> 23, mi |-> 59, s |-> 59] >>
Absent == [k |-> "absent"]
EnumVals(t) == SelectSeq(t.root, LAMBDA i : i.v.k = "num")

RECURSIVE V(_, _), CompVals(_, _, _), Zero(_, _)
\* the zero value of the Go type: encoding/asn1 takes it for an absent optional component
Zero(t, v) ==
  CASE t.k \in {"CONSTR", "TAG"} -> Zero(t.t, v)
    [] t.k = "REF" -> t.n \notin Useful /\ Zero(DefOf(t.n), v)
    [] v.k = "bool" -> ~v.v
    [] v.k = "int" -> v.v = "0"
    [] v.k = "str" -> v.v = <<>>
    [] v.k = "seq" -> LET cs == t.comps \o t.adds IN \A i \in 1..Len(cs) : v.v[i].k = "absent" \/ Zero(cs[i].t, v.v[i])
    [] OTHER -> FALSE
V(t, k) ==
  CASE t.k \in {"CONSTR", "TAG"} -> V(t.t, k)
    [] t.k = "REF" /\ t.n = "UTCTime" -> [k |-> "time", v |-> Pick(Times, k)]
    [] t.k = "REF" /\ t.n = "GeneralizedTime" -> [k |-> "time", v |-> Pick(Times \o Late, k)]
    [] t.k = "REF" -> V(DefOf(t.n), Mix(k + 3))
    [] t.k = "BOOLEAN" -> [k |-> "bool", v |-> k % 2 = 0]
    [] t.k = "INTEGER" -> Pick(Ints, k)
    [] t.k = "ENUM" -> LET n == k % 4 IN Pick(<<IntV(0), IntV(5), IntV(300), IntV(-1)>>, n)
    [] t.k = "OID" -> [k |-> "oid", v |-> Pick(Oids, k)]
    [] t.k = "OCTETS" -> [k |-> "octets", v |-> Pick(Octs, k)]
    [] t.k = "BITS" -> Pick(BitVs, k)
    [] t.k = "STR" -> [k |-> "str", v |-> Pick(Texts(t.s), k)]
    [] t.k \in {"SEQ", "SET"} -> [k |-> "seq", v |-> CompVals(t.comps \o t.adds, 1, k)]
    [] t.k \in {"SEQOF", "SETOF"} -> [k |-> "list", v |-> [i \in 1..(Mix(k) % 4) |-> V(t.t, Mix(k + 17 * i))]]
    [] t.k = "CHOICE" -> LET i == 1 + (k % Len(t.alts)) v == V(t.alts[i].t, Mix(k + 5)) IN [k |-> "alt", i |-> i, v |-> v, b |-> Enc(t.alts[i].t, v)]
CompVals(cs, i, k) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET c == cs[i]
           q == Mix(Mix(k) + 23 * i)
           v == IF c.def.k = "num" /\ q % 3 = 0 THEN [k |-> "int", v |-> c.def.v, b |-> <<>>] ELSE V(c.t, q)
       IN <<IF c.opt /\ (q % 3 = 1 \/ Zero(c.t, v)) THEN Absent ELSE v>> \o CompVals(cs, i + 1, k)

----------------------------------------------------------------------------
First == LET i == Least({j \in Types : Body[j].n = CgPool["t1"][1 + (Mix(salt) % 3)]}) IN Body[i]
\* tag numbers with their value, for the arithmetic of the encoder
SmallNum(s) == CASE s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3 [] s = "5" -> 5 [] s = "7" -> 7 [] s = "8" -> 8 [] s = "9" -> 9 [] s = "10" -> 10 [] s = "16" -> 16
                 [] s = "30" -> 30 [] s = "31" -> 31 [] s = "32" -> 32 [] s = "63" -> 63 [] s = "64" -> 64 [] s = "99" -> 99 [] s = "100" -> 100 [] s = "127" -> 127 [] s = "128" -> 128
                 [] s = "200" -> 200 [] s = "255" -> 255 [] s = "256" -> 256 [] s = "1000" -> 1000 [] s = "1024" -> 1024 [] s = "16384" -> 16384 [] s = "32767" -> 32767 [] s = "32768" -> 32768
                 [] s = "65535" -> 65535 [] s = "65536" -> 65536 [] s = "99999" -> 99999 [] OTHER -> 1000000
RECURSIVE WithNums(_)
WithNums(t) ==
  CASE t.k = "TAG" -> [t EXCEPT !.num = IF @.k = "num" THEN [k |-> "num", v |-> @.v, n |-> SmallNum(@.v)] ELSE @, !.t = WithNums(@)]
    [] t.k \in {"CONSTR", "SEQOF", "SETOF", "named"} -> [t EXCEPT !.t = WithNums(@)]
    [] t.k \in {"SEQ", "SET"} -> [t EXCEPT !.comps = [i \in 1..Len(@) |-> IF @[i].k = "comp" THEN [@[i] EXCEPT !.t = WithNums(@)] ELSE @[i]],
                                           !.adds = [i \in 1..Len(@) |-> IF @[i].k = "comp" THEN [@[i] EXCEPT !.t = WithNums(@)] ELSE @[i]]]
    [] t.k = "CHOICE" -> [t EXCEPT !.alts = [i \in 1..Len(@) |-> [@[i] EXCEPT !.t = WithNums(@)]]]
    [] OTHER -> t
Numbered(m) == [m EXCEPT !.body = [i \in 1..Len(@) |-> [@[i] EXCEPT !.t = WithNums(@)]]]
Prepare == /\ ph = "derive" /\ stk = <<>> /\ ph' = "numbered"
           /\ vs' = <<Numbered(vs[1])>> /\ tab' = TLCEval(TableOf(Body))
           /\ UNCHANGED <<stk, out, fuel, salt, done, pos, decls, err, gray, uses>>
BeginW == /\ ph = "numbered" /\ ph' = "translate" /\ err' = (Mod.tags = "AUTOMATIC")
          /\ UNCHANGED <<tab, stk, out, vs, fuel, salt, done, pos, decls, gray, uses>>
\* encoding/asn1 does not read a wrapper of class PRIVATE: such values are only written
RECURSIVE WriteOnly(_)
WriteOnly(t) ==
  CASE t.k = "TAG" -> (t.cls = "PRIVATE" /\ ModeOf(t) = "EXPLICIT") \/ WriteOnly(t.t)
    [] t.k \in {"CONSTR", "SEQOF", "SETOF"} -> WriteOnly(t.t)
    [] t.k \in {"SEQ", "SET"} -> LET cs == t.comps \o t.adds IN \E i \in 1..Len(cs) : WriteOnly(cs[i].t)
    [] OTHER -> FALSE      \* the alternatives of a choice are read as they are
\* ... and takes a string or a time of any kind for an absent one
Kinds(S) == {IF x \in {<<0, 12>>, <<0, 18>>, <<0, 22>>} THEN <<0, 19>> ELSE IF x = <<0, 24>> THEN <<0, 23>> ELSE x : x \in S}
Confused(cs) == \E i, j \in 1..Len(cs) : i < j /\ (\A k \in i..(j - 1) : May(cs[k])) /\ Kinds(TagsOf(cs[i].t)) \cap Kinds(TagsOf(cs[j].t)) # {}
\* ... nor an empty last component after an absent one with a wrapper
Omitted(c, v) == v.k = "absent" \/ SameAsDefault(c, v)
Wrapped(t) == LET u == Unwrap(t) IN u.k = "TAG" /\ ModeOf(u) = "EXPLICIT"
RECURSIVE Stumbles(_, _)
Stumbles(t, v) ==
  CASE t.k \in {"CONSTR", "TAG"} -> Stumbles(t.t, v)
    [] t.k = "REF" -> t.n \notin Useful /\ Stumbles(DefOf(t.n), v)
    [] t.k \in {"SEQOF", "SETOF"} -> \E i \in 1..Len(v.v) : Stumbles(t.t, v.v[i])
    [] t.k \in {"SEQ", "SET"} ->
         LET cs == t.comps \o t.adds IN
         Confused(cs) \/
         \E i \in 1..Len(cs) :
           IF Omitted(cs[i], v.v[i])
           THEN /\ Wrapped(cs[i].t)
                /\ \E j \in (i + 1)..Len(cs) : /\ ~Omitted(cs[j], v.v[j]) /\ \A k \in (j + 1)..Len(cs) : Omitted(cs[k], v.v[k])
                                            /\ LET e == Enc(cs[j].t, v.v[j]) IN Len(e) = IdLen(e) + 1
           ELSE Stumbles(cs[i].t, v.v[i])
    [] OTHER -> FALSE
Representable == /\ ~err /\ ~gray /\ ~Recursive /\ Claimed(First.t, IF Bare(First.t).k = "SETOF" THEN "comp" ELSE "elem", {First.n})
                 /\ \A i \in Types : ~InnerSets(Body[i].t) /\ (\A c \in (LET t == Bare(Body[i].t) IN IF t.k \in {"SEQ", "SET"} THEN {t.comps[j] : j \in 1..Len(t.comps)} ELSE {}) : c.k # "comp" \/ ~InnerSets(c.t))
WireWrite ==
  /\ ph = "translate" /\ pos > Len(Body) /\ ph' = "done" /\ done' = TRUE
  /\ IF Representable
     THEN LET vals == TLCEval([i \in 1..Count |-> TLCEval(V(First.t, Mix(salt + 57 * i + 3 * Len(out))))])
          IN CSVWrite("%1$s", <<ToJson([ast |-> Mod, toks |-> out, first |-> First.n, 
                                        vals |-> [i \in 1..Count |-> [v |-> vals[i], der |-> Enc(First.t, vals[i]), back |-> ~Stumbles(First.t, vals[i]) /\ ~\E j \in Types : WriteOnly(Body[j].t)]]])>>, OutFile)
     ELSE TRUE
  /\ UNCHANGED <<tab, stk, out, vs, fuel, salt, pos, decls, err, gray, uses>>
WNext == Derive \/ Prepare \/ BeginW \/ Translate \/ WireWrite
WSpec == CInit /\ [][WNext]_cvars
=============================================================================
