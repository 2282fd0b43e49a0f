------------------------------ MODULE CgChain ------------------------------
(* Long reference chains and cycles of every length, whatever the order of the
   definitions: the modules are given, the translation is that of CodeGen.     *)
EXTENDS CodeGen
CONSTANTS Lengths

\* Dir: the definitions come in the order of the chain, against it, or from both ends
VARIABLE shape
Tname(i) == "T-" \o ToString(i)
Ref(i) == [k |-> "REF", n |-> Tname(i)]
Ends == << Int0, [k |-> "STR", s |-> "UTF8String"], [k |-> "STR", s |-> "VisibleString"], [k |-> "BITS", bits |-> <<>>], [k |-> "REF", n |-> "UTCTime"], [k |-> "REF", n |-> "GeneralizedTime"],
           [k |-> "SET", comps |-> <<>>, adds |-> <<>>], [k |-> "SETOF", t |-> Int0], [k |-> "SEQ", comps |-> <<>>, adds |-> <<>>],
           [k |-> "CHOICE", alts |-> << [n |-> "x", t |-> [k |-> "TAG", cls |-> "CONTEXT", num |-> [k |-> "num", v |-> "1"], mode |-> "DEFAULT", t |-> Int0]] >>, exts |-> <<>>],
           [k |-> "REF", n |-> "Nowhere"] >>
Wrap(w, i, t) == IF w = 0 \/ (w = 3 /\ i % 2 = 0) THEN t
                 ELSE IF w = 1 \/ (w = 3 /\ i % 3 = 0) THEN [k |-> "TAG", cls |-> "CONTEXT", num |-> [k |-> "num", v |-> ToString(i)], mode |-> "IMPLICIT", t |-> t]
                 ELSE [k |-> "CONSTR", t |-> t, c |-> <<OneElem([k |-> "val", v |-> [k |-> "num", v |-> "1"]])>>]
Def(s, i) == [k |-> "type", n |-> Tname(i), t |-> Wrap(s.wrap, i, IF i < s.len THEN Ref(i + 1) ELSE IF s.back > 0 THEN Ref(s.back) ELSE Ends[s.end])]
Place(s, i) == CASE s.dir = "along" -> i [] s.dir = "against" -> s.len + 1 - i
                 [] OTHER -> IF i % 2 = 1 THEN (i + 1) \div 2 ELSE s.len + 1 - i \div 2
Comp(n, t, o) == [k |-> "comp", n |-> n, t |-> t, opt |-> o, def |-> none]
User(n, i) == [k |-> "type", n |-> n, t |-> [k |-> "SEQ", adds |-> <<>>,
                 comps |-> << Comp("a", Ref(i), FALSE), Comp("b", [k |-> "SEQOF", t |-> Ref(i)], TRUE),
                              Comp("c", [k |-> "TAG", cls |-> "PRIVATE", num |-> [k |-> "num", v |-> "3"], mode |-> "DEFAULT", t |-> Ref(i)], FALSE) >>]]
Pick3(s) == User("User-" \o ToString(s), s)
ChainModule(s) ==
  [k |-> "module", name |-> "Chain", oid |-> <<>>, tags |-> "EXPLICIT", ext |-> FALSE, imports |-> <<>>,
   body |-> <<Pick3(1)>> \o [i \in 1..s.len |-> Def(s, Place(s, i))]
            \o (IF s.len > 1 THEN <<Pick3(s.len)>> ELSE <<>>)
            \o <<[k |-> "type", n |-> "Pick", t |-> [k |-> "CHOICE", exts |-> <<>>, alts |-> <<[n |-> "y", t |-> Rec1("NULL")], [n |-> "z", t |-> Ref(1)]>>]]>>]
Backs(n) == {0} \cup {b \in {1, 2, n \div 2, n - 1, n} : b >= 1 /\ b <= n}
Shapes == [len : Lengths, dir : {"along", "against", "mixed"}, wrap : 0..3, end : 1..Len(Ends), back : 0..1000]

ChainInit == /\ \E n \in Lengths : \E b \in Backs(n) : \E d \in {"along", "against", "mixed"} : \E w \in 0..3 :
                \E e \in IF b > 0 THEN {1} ELSE 1..Len(Ends) :
                   /\ (n > 20 => (w \in {0, 3} /\ e \in {1, 2, 6, 7, 11}) /\ d # "along")
                   /\ (n > 100 => w = 3 /\ e \in {1, 6, 11} /\ d = (IF b = 0 THEN "mixed" ELSE "against") /\ b \in {0, 1, n})
                   /\ shape = [len |-> n, dir |-> d, wrap |-> w, end |-> e, back |-> b]
             /\ vs = <<ChainModule(shape)>> /\ stk = <<>> /\ out = <<>> /\ fuel = 0 /\ salt = 0 /\ done = FALSE
             /\ tab = NoTable /\ pos = 1 /\ decls = <<>> /\ err = FALSE /\ gray = FALSE /\ uses = {} /\ ph = "derive"
ChainWrite ==
  /\ ph = "translate" /\ pos > Len(Body)
  /\ ph' = "done" /\ done' = TRUE
  /\ CSVWrite("%1$s", <<ToJson([ast |-> Mod, verdict |-> Verdict, int |-> "int" \in uses, cyclic |-> FALSE,
                                uses |-> uses \ {"int"}, decls |-> IF err THEN <<>> ELSE decls])>>, OutFile)
  /\ UNCHANGED <<tab, stk, out, vs, fuel, salt, pos, decls, err, gray, uses>>
ChainSpec == ChainInit /\ [][(Begin \/ Translate \/ ChainWrite) /\ UNCHANGED shape]_<<cvars, shape>>

\* a cycle is an error, and so is a chain that ends nowhere; every other chain gives a source
Settled == ph = "done" => (err <=> (shape.back > 0 \/ shape.end = Len(Ends)))
=============================================================================
