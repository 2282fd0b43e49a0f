------------------------------ MODULE Grammar ------------------------------
(* The supported ASN.1 notation as data: for every nonterminal the sequence of
   its alternatives, each a sequence of symbols.  A symbol is
     <<"t", s>>   the literal item s                <<"n", N>>  a nonterminal
     <<"l", c>>   a lexeme of class c (upper, lower, num, real); its text is
                  pushed on the value stack
     <<"a", x>>   a semantic action on the value stack
     <<"p", v>>   push the constant v
   The first alternative of every nonterminal is one that terminates.

   Semantic actions build the abstract module tree, the specification's notion
   of what a text means.  The implementation's tree is projected to the same
   form for comparison.

   Deliberate limits of the supported notation (documented in the README and in
   the grammar file of the implementation) are marked with the action "gray":
   the notation is valid X.680, or tolerated by the implementation, but what
   happens with it is not claimed.                                           *)
EXTENDS Integers, Sequences, TLC, Lexemes

T_(s) == <<"t", s>>
N_(s) == <<"n", s>>
L_(s) == <<"l", s>>
A_(s) == <<"a", s>>
P_(v) == <<"p", v>>
none == [k |-> "none"]
Rec1(k) == [k |-> k]

StringKinds == <<"BMPString", "GeneralString", "GraphicString", "IA5String",
  "ISO646String", "NumericString", "PrintableString", "TeletexString", "T61String",
  "UniversalString", "UTF8String", "VideotexString", "VisibleString">>

SimpleTypes ==
  << <<T_("NULL"), P_(Rec1("NULL"))>>,
     <<T_("BOOLEAN"), P_(Rec1("BOOLEAN"))>>,
     <<T_("INTEGER"), P_([k |-> "INTEGER", nums |-> <<>>])>>,
     <<L_("upper"), A_("ref")>>,
     <<T_("REAL"), P_(Rec1("REAL"))>>,
     <<T_("OBJECT"), T_("IDENTIFIER"), P_(Rec1("OID"))>>,
     <<T_("OCTET"), T_("STRING"), P_(Rec1("OCTETS"))>>,
     <<T_("CHARACTER"), T_("STRING"), P_(Rec1("CHARSTRING"))>>,
     <<T_("BIT"), T_("STRING"), P_([k |-> "BITS", bits |-> <<>>])>>,
     <<T_("BIT"), T_("STRING"), T_("{"), N_("BitList"), T_("}"), A_("bits")>>,
     <<T_("INTEGER"), T_("{"), N_("NumList"), T_("}"), A_("integer")>>,
     <<T_("ENUMERATED"), T_("{"), N_("EnumList"), T_("}"), A_("enum")>>,
     <<T_("ANY"), P_([k |-> "ANY", by |-> ""])>>,
     <<T_("ANY"), T_("DEFINED"), T_("BY"), L_("lower"), A_("anyby")>>,
     <<T_("SEQUENCE"), T_("{"), N_("Comps"), T_("}"), A_("seq")>>,
     <<T_("SET"), T_("{"), N_("Comps"), T_("}"), A_("set")>>,
     <<T_("CHOICE"), T_("{"), N_("Alts"), T_("}")>>,
     <<N_("StringType")>>,
     <<T_("GeneralizedTime"), P_([k |-> "REF", n |-> "GeneralizedTime"])>>,
     <<T_("UTCTime"), P_([k |-> "REF", n |-> "UTCTime"])>> >>

G ==
 [ Module |-> << <<L_("upper"), N_("OptOid"), T_("DEFINITIONS"), N_("Tags"), N_("Ext"), T_("::="),
                   T_("BEGIN"), N_("Body"), T_("END"), A_("module")>> >>,
   OptOid |-> << <<P_(<<>>)>>, <<T_("{"), N_("DOidList"), T_("}")>> >>,
   DOidList |-> << <<P_(<<>>), N_("DOid"), A_("snoc"), N_("DOidMore")>> >>,
   DOidMore |-> << <<>>, <<N_("DOid"), A_("snoc"), N_("DOidMore")>> >>,
   DOid |-> << <<L_("num"), A_("doidnum")>>, <<L_("lower"), A_("doidname")>>,
               <<L_("lower"), T_("("), L_("num"), T_(")"), A_("doidboth")>> >>,
   Tags |-> << <<P_("EXPLICIT")>>, <<T_("EXPLICIT"), T_("TAGS"), P_("EXPLICIT")>>,
               <<T_("IMPLICIT"), T_("TAGS"), P_("IMPLICIT")>>,
               <<T_("AUTOMATIC"), T_("TAGS"), P_("AUTOMATIC")>> >>,
   Ext |-> << <<P_(FALSE)>>, <<T_("EXTENSIBILITY"), T_("IMPLIED"), P_(TRUE)>> >>,
   Body |-> << <<P_(<<>>), P_(<<>>)>>, <<N_("Exports"), N_("Imports"), N_("Assigns")>> >>,
   Exports |-> << <<>>, <<T_("EXPORTS"), T_(";")>>, <<T_("EXPORTS"), T_("ALL"), T_(";")>>,
                  <<T_("EXPORTS"), N_("SymList"), A_("drop"), T_(";")>> >>,
   Imports |-> << <<P_(<<>>)>>, <<T_("IMPORTS"), T_(";"), P_(<<>>)>>,
                  <<T_("IMPORTS"), N_("FromList"), T_(";")>> >>,
   FromList |-> << <<P_(<<>>), N_("From"), A_("snoc"), N_("FromMore")>> >>,
   FromMore |-> << <<>>, <<N_("From"), A_("snoc"), N_("FromMore")>> >>,
   From |-> << <<N_("SymList"), T_("FROM"), L_("upper"), N_("Aid"), A_("from")>> >>,
   Aid |-> << <<P_(none)>>, <<N_("OidVal")>>, <<N_("DefVal")>> >>,
   SymList |-> << <<P_(<<>>), N_("Sym"), A_("snoc"), N_("SymMore")>> >>,
   SymMore |-> << <<>>, <<T_(","), N_("Sym"), A_("snoc"), N_("SymMore")>> >>,
   Sym |-> << <<L_("upper"), A_("tsym")>>, <<L_("lower"), A_("vsym")>> >>,
   Assigns |-> << <<P_(<<>>), N_("Assign"), A_("snoc"), N_("AssignMore")>> >>,
   AssignMore |-> << <<>>, <<N_("Assign"), A_("snoc"), N_("AssignMore")>> >>,
   Assign |-> << <<L_("upper"), T_("::="), N_("Type"), A_("tassign")>>,
                 <<L_("lower"), N_("Type"), T_("::="), N_("Value"), A_("vassign")>> >>,
   \* ------------------------------------------------------------- types
   Type |-> << <<N_("Simple"), N_("Constrs")>>,
               <<N_("Tag"), N_("Mode"), N_("Type"), A_("tagged")>>,
               <<T_("SEQUENCE"), T_("OF"), N_("Elem"), A_("seqof")>>,
               <<T_("SET"), T_("OF"), N_("Elem"), A_("setof")>>,
               <<T_("SEQUENCE"), N_("OfConstr"), T_("OF"), N_("Elem"), A_("cseqof")>>,
               <<T_("SET"), N_("OfConstr"), T_("OF"), N_("Elem"), A_("csetof")>> >>,
   Simple |-> SimpleTypes,
   StringType |-> [i \in 1..Len(StringKinds) |->
                     <<T_(StringKinds[i]), P_([k |-> "STR", s |-> StringKinds[i]])>>],
   Constrs |-> << <<>>, <<N_("Constr"), A_("constr"), N_("Constrs")>> >>,
   OfConstr |-> << <<N_("Constr")>>, <<T_("SIZE"), N_("Constr"), A_("sizec")>> >>,
   Elem |-> << <<N_("Type")>>, <<L_("lower"), N_("Type"), A_("named")>> >>,
   Tag |-> << <<T_("["), N_("Class"), N_("TagNum"), T_("]")>> >>,
   TagNum |-> << <<L_("num"), A_("num")>>, <<N_("DefVal")>> >>,
   Class |-> << <<P_("CONTEXT")>>, <<T_("UNIVERSAL"), P_("UNIVERSAL")>>,
                <<T_("APPLICATION"), P_("APPLICATION")>>, <<T_("PRIVATE"), P_("PRIVATE")>> >>,
   Mode |-> << <<P_("DEFAULT")>>, <<T_("IMPLICIT"), P_("IMPLICIT")>>, <<T_("EXPLICIT"), P_("EXPLICIT")>> >>,
   BitList |-> << <<P_(<<>>), N_("Bit"), A_("snoc"), N_("BitMore")>> >>,
   BitMore |-> << <<>>, <<T_(","), N_("Bit"), A_("snoc"), N_("BitMore")>> >>,
   Bit |-> << <<L_("lower"), T_("("), L_("num"), A_("num"), T_(")"), A_("nn")>>,
              <<L_("lower"), T_("("), N_("DefVal"), T_(")"), A_("nn")>> >>,
   NumList |-> << <<P_(<<>>), N_("NN"), A_("snoc"), N_("NumMore")>> >>,
   NumMore |-> << <<>>, <<T_(","), N_("NN"), A_("snoc"), N_("NumMore")>> >>,
   NN |-> << <<L_("lower"), T_("("), N_("Signed"), T_(")"), A_("nn")>>,
             <<L_("lower"), T_("("), N_("DefVal"), T_(")"), A_("nn")>> >>,
   Signed |-> << <<L_("num"), A_("num")>>, <<T_("-"), L_("num"), A_("neg")>> >>,
   EnumList |-> << <<N_("EnumItems"), P_(<<>>)>>,
                   <<N_("EnumItems"), T_(","), T_("..."), N_("Exc"), A_("gray"), P_(<<>>)>>,
                   <<N_("EnumItems"), T_(","), T_("..."), N_("Exc"), T_(","), A_("gray"), N_("EnumItems")>> >>,
   EnumItems |-> << <<P_(<<>>), N_("EnumItem"), A_("snoc"), N_("EnumMore")>> >>,
   EnumMore |-> << <<>>, <<T_(","), N_("EnumItem"), A_("snoc"), N_("EnumMore")>> >>,
   EnumItem |-> << <<L_("lower"), A_("enumid")>>, <<N_("NN")>> >>,
   \* components: pushes the list of root components and the list of additions
   Comps |-> << <<P_(<<>>), P_(<<>>)>>,
                <<N_("CompList"), P_(<<>>)>>,
                <<P_(<<>>), N_("ExtExc"), P_(<<>>)>>,
                <<P_(<<>>), N_("ExtExc"), T_(","), T_("..."), P_(<<>>)>>,
                <<N_("CompList"), T_(","), N_("ExtExc"), P_(<<>>)>>,
                <<N_("CompList"), T_(","), N_("ExtExc"), T_(","), N_("AddList")>>,
                \* X.680 forms the implementation documents as not supported
                <<N_("CompList"), T_(","), N_("ExtExc"), T_(","), T_("..."), A_("gray"), P_(<<>>)>>,
                <<N_("CompList"), T_(","), N_("ExtExc"), T_(","), N_("AddList"), T_(","), T_("..."), A_("gray")>>,
                <<N_("CompList"), T_(","), N_("ExtExc"), T_(","), T_("..."), T_(","), A_("gray"), N_("CompList")>>,
                <<N_("CompList"), T_(","), N_("ExtExc"), T_(","), N_("AddList"), T_(","), T_("..."), T_(","), A_("gray"), N_("CompList"), A_("drop")>>,
                <<P_(<<>>), N_("ExtExc"), T_(","), A_("gray"), N_("AddList")>>,
                <<P_(<<>>), N_("ExtExc"), T_(","), A_("gray"), N_("AddList"), T_(","), T_("...")>>,
                <<N_("ExtExc"), T_(","), T_("..."), T_(","), A_("gray"), N_("CompList"), P_(<<>>)>>,
                <<N_("ExtExc"), T_(","), A_("gray"), N_("AddList"), T_(","), T_("..."), T_(","), N_("CompList")>> >>,
   ExtExc |-> << <<T_("..."), N_("Exc")>> >>,
   AddList |-> << <<P_(<<>>), N_("Add"), A_("snoc"), N_("AddMore")>> >>,
   AddMore |-> << <<>>, <<T_(","), N_("Add"), A_("snoc"), N_("AddMore")>> >>,
   Add |-> << <<N_("Comp")>>, <<T_("[["), N_("Version"), A_("gray"), N_("CompList"), T_("]]"), A_("group")>> >>,
   Version |-> << <<>>, <<L_("num"), A_("drop"), T_(":")>> >>,
   CompList |-> << <<P_(<<>>), N_("Comp"), A_("snoc"), N_("CompMore")>> >>,
   CompMore |-> << <<>>, <<T_(","), N_("Comp"), A_("snoc"), N_("CompMore")>> >>,
   Comp |-> << <<L_("lower"), N_("Type"), P_(none), A_("comp")>>,
               <<L_("lower"), N_("Type"), T_("OPTIONAL"), A_("compopt")>>,
               <<L_("lower"), N_("Type"), T_("DEFAULT"), N_("Value"), A_("comp")>>,
               <<T_("COMPONENTS"), T_("OF"), N_("Type"), A_("compsof")>> >>,
   Alts |-> << <<N_("AltList"), P_(<<>>), A_("choice")>>,
               <<N_("AltList"), T_(","), N_("ExtExc"), P_(<<>>), A_("choice")>>,
               <<N_("AltList"), T_(","), N_("ExtExc"), T_(","), N_("AltList"), A_("choice")>>,
               <<P_(<<>>), N_("ExtExc"), P_(<<>>), A_("choice")>>,
               <<P_(<<>>), N_("ExtExc"), T_(","), A_("gray"), N_("AltList"), A_("choice")>>,
               <<P_(<<>>), N_("ExtExc"), T_(","), T_("..."), A_("gray"), P_(<<>>), A_("choice")>>,
               <<N_("AltList"), T_(","), N_("ExtExc"), T_(","), T_("..."), A_("gray"), P_(<<>>), A_("choice")>>,
               <<N_("AltList"), T_(","), N_("ExtExc"), T_(","), N_("AltList"), T_(","), T_("..."), A_("gray"), A_("choice")>>,
               <<P_(<<>>), N_("ExtExc"), T_(","), N_("AltList"), T_(","), T_("..."), A_("gray"), A_("choice")>>,
               <<N_("AltList"), T_(","), N_("ExtExc"), T_(","), T_("[["), A_("gray"), N_("Version"), N_("AltList"), T_("]]"), A_("choice")>> >>,
   AltList |-> << <<P_(<<>>), N_("Alt"), A_("snoc"), N_("AltMore")>> >>,
   AltMore |-> << <<>>, <<T_(","), N_("Alt"), A_("snoc"), N_("AltMore")>> >>,
   Alt |-> << <<L_("lower"), N_("Type"), A_("alt")>> >>,
   \* ------------------------------------------------------- constraints
   Constr |-> << <<T_("("), N_("ESpecs"), N_("Exc"), T_(")")>> >>,
   ESpecs |-> << <<P_(<<>>), N_("ESpec"), A_("snoc")>>,
                 <<P_(<<>>), N_("ESpec"), A_("snoc"), T_(","), T_("...")>>,
                 <<P_(<<>>), N_("ESpec"), A_("snoc"), T_(","), T_("..."), T_(","), N_("ESpec"), A_("snoc")>> >>,
   ESpec |-> << <<N_("Unions")>>, <<T_("ALL"), T_("EXCEPT"), N_("Element"), A_("allx")>> >>,
   Unions |-> << <<P_(<<>>), N_("Inters"), A_("snoc"), N_("UMore"), A_("unions")>> >>,
   UMore |-> << <<>>, <<N_("UMark"), N_("Inters"), A_("snoc"), N_("UMore")>> >>,
   UMark |-> << <<T_("|")>>, <<T_("UNION")>> >>,
   Inters |-> << <<P_(<<>>), N_("IE"), A_("snoc"), N_("IMore"), A_("inters")>> >>,
   IMore |-> << <<>>, <<N_("IMark"), N_("IE"), A_("snoc"), N_("IMore")>> >>,
   IMark |-> << <<T_("^")>>, <<T_("INTERSECTION")>> >>,
   IE |-> << <<N_("Element"), P_(none), A_("ie")>>, <<N_("Element"), T_("EXCEPT"), N_("Element"), A_("ie")>> >>,
   Element |-> << <<N_("Value"), A_("val")>>,
                  <<N_("Lo"), T_(".."), N_("Hi"), A_("range")>>,
                  <<T_("SIZE"), N_("Constr"), A_("size")>>,
                  <<N_("Type"), A_("tc")>>,
                  <<T_("WITH"), T_("COMPONENT"), N_("Constr"), A_("drop"), P_(Rec1("inner"))>>,
                  <<T_("WITH"), T_("COMPONENTS"), T_("{"), N_("PartialOpt"), N_("NamedConstr"), N_("NCMore"), T_("}"), P_(Rec1("inner"))>>,
                  <<T_("("), N_("ESpec"), T_(")")>> >>,
   PartialOpt |-> << <<>>, <<T_("..."), T_(",")>> >>,
   NCMore |-> << <<>>, <<T_(","), N_("NamedConstr"), N_("NCMore")>> >>,
   NamedConstr |-> << <<L_("lower"), A_("drop"), N_("OptConstr"), N_("Presence")>> >>,
   OptConstr |-> << <<>>, <<N_("Constr"), A_("drop")>> >>,
   Presence |-> << <<>>, <<T_("PRESENT")>>, <<T_("ABSENT")>>, <<T_("OPTIONAL")>> >>,
   Lo |-> << <<N_("Value"), P_(FALSE)>>, <<N_("Value"), T_("<"), P_(TRUE)>>, <<T_("MIN"), P_(none), P_(FALSE)>>, <<T_("MIN"), P_(none), T_("<"), P_(TRUE)>> >>,
   Hi |-> << <<N_("Value"), P_(FALSE)>>, <<T_("<"), N_("Value"), P_(TRUE)>>, <<T_("MAX"), P_(none), P_(FALSE)>>, <<T_("<"), T_("MAX"), P_(none), P_(TRUE)>> >>,
   Exc |-> << <<>>, <<T_("!"), N_("Signed"), A_("drop")>>, <<T_("!"), N_("DefVal"), A_("drop")>>,
              <<T_("!"), N_("Type"), A_("drop"), T_(":"), N_("Value"), A_("drop")>> >>,
   \* ------------------------------------------------------------- values
   Value |-> << <<N_("Signed")>>,
                <<T_("TRUE"), P_([k |-> "bool", v |-> TRUE])>>,
                <<T_("FALSE"), P_([k |-> "bool", v |-> FALSE])>>,
                <<L_("lower"), A_("ident")>>,
                <<L_("real"), A_("real")>>,
                <<T_("-"), L_("real"), A_("negreal")>>,
                <<T_("PLUS-INFINITY"), P_([k |-> "real", v |-> "inf"])>>,
                <<T_("MINUS-INFINITY"), P_([k |-> "real", v |-> "-inf"])>>,
                <<N_("OidVal")>> >>,
   DefVal |-> << <<L_("lower"), A_("dv")>>, <<L_("upper"), T_("."), L_("lower"), A_("mdv")>> >>,
   OidVal |-> << <<T_("{"), P_(<<>>), N_("OidEl"), A_("snoc"), N_("OidMore"), T_("}"), A_("oid")>> >>,
   OidMore |-> << <<>>, <<N_("OidEl"), A_("snoc"), N_("OidMore")>> >>,
   OidEl |-> << <<L_("num"), A_("oidnum")>>, <<N_("DefVal"), A_("oidref")>>,
                <<L_("lower"), T_("("), L_("num"), T_(")"), A_("oidboth")>>,
                <<L_("lower"), T_("("), N_("DefVal"), T_(")"), A_("oidbothref")>> >> ]

----------------------------------------------------------------------------
(* Semantic actions.  vs is the value stack, top last.                       *)

Top(vs, i) == vs[Len(vs) - i]                       \* Top(vs,0) is the top
Pop(vs, m) == SubSeq(vs, 1, Len(vs) - m)
Push(vs, m, v) == Append(Pop(vs, m), v)             \* replace m values by v
OneElem(e) == [k |-> "U", is |-> <<[k |-> "I", es |-> <<[k |-> "E", e |-> e, x |-> none]>>]>>]

\* what a value says of its own type; references do not know
Says(v) == CASE v.k = "num" -> "INTEGER" [] v.k = "real" -> "REAL" [] v.k = "bool" -> "BOOLEAN" [] v.k = "oid" -> "OID" [] OTHER -> "none"

Act(x, vs) ==
  CASE x = "drop"    -> Pop(vs, 1)
    [] x = "gray"    -> vs
    [] x = "snoc"    -> Push(vs, 2, Append(Top(vs, 1), Top(vs, 0)))
    [] x = "num"     -> Push(vs, 1, [k |-> "num", v |-> Top(vs, 0)])
    [] x = "neg"     -> Push(vs, 1, [k |-> "num", v |-> NegNum(Top(vs, 0))])
    [] x = "real"    -> Push(vs, 1, [k |-> "real", v |-> Top(vs, 0)])
    [] x = "negreal" -> Push(vs, 1, [k |-> "real", v |-> NegReal(Top(vs, 0))])
    [] x = "ident"   -> Push(vs, 1, [k |-> "id", n |-> Top(vs, 0)])
    [] x = "dv"      -> Push(vs, 1, [k |-> "dv", m |-> "", n |-> Top(vs, 0)])
    [] x = "mdv"     -> Push(vs, 2, [k |-> "dv", m |-> Top(vs, 1), n |-> Top(vs, 0)])
    [] x = "oid"     -> Push(vs, 1, [k |-> "oid", es |-> Top(vs, 0)])
    [] x = "oidnum"  -> Push(vs, 1, [n |-> "", id |-> Top(vs, 0), ref |-> none])
    [] x = "oidref"  -> Push(vs, 1, [n |-> "", id |-> "0", ref |-> Top(vs, 0)])
    [] x = "oidboth" -> Push(vs, 2, [n |-> Top(vs, 1), id |-> Top(vs, 0), ref |-> none])
    [] x = "oidbothref" -> Push(vs, 2, [n |-> Top(vs, 1), id |-> "0", ref |-> Top(vs, 0)])
    [] x = "doidnum"  -> Push(vs, 1, [n |-> "", id |-> Top(vs, 0)])
    [] x = "doidname" -> Push(vs, 1, [n |-> Top(vs, 0), id |-> "0"])
    [] x = "doidboth" -> Push(vs, 2, [n |-> Top(vs, 1), id |-> Top(vs, 0)])
    [] x = "tsym"    -> Push(vs, 1, [k |-> "tref", n |-> Top(vs, 0)])
    [] x = "vsym"    -> Push(vs, 1, [k |-> "vref", n |-> Top(vs, 0)])
    [] x = "from"    -> Push(vs, 3, [syms |-> Top(vs, 2), from |-> Top(vs, 1), aid |-> Top(vs, 0)])
    [] x = "module"  -> Push(vs, 6, [k |-> "module", name |-> Top(vs, 5), oid |-> Top(vs, 4), tags |-> Top(vs, 3),
                                     ext |-> Top(vs, 2), imports |-> Top(vs, 1), body |-> Top(vs, 0)])
    [] x = "tassign" -> Push(vs, 2, [k |-> "type", n |-> Top(vs, 1), t |-> Top(vs, 0)])
    [] x = "vassign" -> Push(vs, 3, [k |-> "value", n |-> Top(vs, 2), t |-> Top(vs, 1), v |-> Top(vs, 0), says |-> Says(Top(vs, 0))])
    [] x = "ref"     -> Push(vs, 1, [k |-> "REF", n |-> Top(vs, 0)])
    [] x = "bits"    -> Push(vs, 1, [k |-> "BITS", bits |-> Top(vs, 0)])
    [] x = "integer" -> Push(vs, 1, [k |-> "INTEGER", nums |-> Top(vs, 0)])
    [] x = "nn"      -> Push(vs, 2, [n |-> Top(vs, 1), v |-> Top(vs, 0)])
    [] x = "enumid"  -> Push(vs, 1, [n |-> Top(vs, 0), v |-> none])
    [] x = "enum"    -> Push(vs, 2, [k |-> "ENUM", root |-> Top(vs, 1), more |-> Top(vs, 0)])
    [] x = "anyby"   -> Push(vs, 1, [k |-> "ANY", by |-> Top(vs, 0)])
    [] x = "seq"     -> Push(vs, 2, [k |-> "SEQ", comps |-> Top(vs, 1), adds |-> Top(vs, 0)])
    [] x = "set"     -> Push(vs, 2, [k |-> "SET", comps |-> Top(vs, 1), adds |-> Top(vs, 0)])
    [] x = "seqof"   -> Push(vs, 1, [k |-> "SEQOF", t |-> Top(vs, 0)])
    [] x = "setof"   -> Push(vs, 1, [k |-> "SETOF", t |-> Top(vs, 0)])
    [] x = "cseqof"  -> Push(vs, 2, [k |-> "CONSTR", t |-> [k |-> "SEQOF", t |-> Top(vs, 0)], c |-> Top(vs, 1)])
    [] x = "csetof"  -> Push(vs, 2, [k |-> "CONSTR", t |-> [k |-> "SETOF", t |-> Top(vs, 0)], c |-> Top(vs, 1)])
    [] x = "sizec"   -> Push(vs, 1, <<OneElem([k |-> "size", c |-> Top(vs, 0)])>>)
    [] x = "constr"  -> Push(vs, 2, [k |-> "CONSTR", t |-> Top(vs, 1), c |-> Top(vs, 0)])
    [] x = "named"   -> Push(vs, 2, [k |-> "named", n |-> Top(vs, 1), t |-> Top(vs, 0)])
    [] x = "alt"     -> Push(vs, 2, [n |-> Top(vs, 1), t |-> Top(vs, 0)])
    [] x = "tagged"  -> Push(vs, 4, [k |-> "TAG", cls |-> Top(vs, 3), num |-> Top(vs, 2), mode |-> Top(vs, 1), t |-> Top(vs, 0)])
    [] x = "comp"    -> Push(vs, 3, [k |-> "comp", n |-> Top(vs, 2), t |-> Top(vs, 1), opt |-> FALSE, def |-> Top(vs, 0)])
    [] x = "compopt" -> Push(vs, 2, [k |-> "comp", n |-> Top(vs, 1), t |-> Top(vs, 0), opt |-> TRUE, def |-> none])
    [] x = "compsof" -> Push(vs, 1, [k |-> "compsof", t |-> Top(vs, 0)])
    [] x = "group"   -> Push(vs, 1, [k |-> "group"])
    [] x = "choice"  -> Push(vs, 2, [k |-> "CHOICE", alts |-> Top(vs, 1), exts |-> Top(vs, 0)])
    [] x = "allx"    -> Push(vs, 1, [k |-> "ALLX", e |-> Top(vs, 0)])
    [] x = "unions"  -> Push(vs, 1, [k |-> "U", is |-> Top(vs, 0)])
    [] x = "inters"  -> Push(vs, 1, [k |-> "I", es |-> Top(vs, 0)])
    [] x = "ie"      -> Push(vs, 2, [k |-> "E", e |-> Top(vs, 1), x |-> Top(vs, 0)])
    [] x = "val"     -> Push(vs, 1, [k |-> "val", v |-> Top(vs, 0)])
    [] x = "range"   -> Push(vs, 4, [k |-> "range", lo |-> [v |-> Top(vs, 3), open |-> Top(vs, 2)],
                                                    hi |-> [v |-> Top(vs, 1), open |-> Top(vs, 0)]])
    [] x = "size"    -> Push(vs, 1, [k |-> "size", c |-> Top(vs, 0)])
    [] x = "tc"      -> Push(vs, 1, [k |-> "tc", t |-> Top(vs, 0)])
=============================================================================
