------------------------------ MODULE CgForms ------------------------------
(* Start forms for modules that a Go source is generated from: few names, so
   that references mostly resolve; names distinct by construction; values that
   fit their types.  The classes t1.. v1.. f1.. a1.. are lexemes whose text is
   fixed per behaviour, so that a use names the same thing as its definition.
   Here "gray" marks what cannot be generated.                               *)
EXTENDS Grammar

Int0 == [k |-> "INTEGER", nums |-> <<>>]
TypePool == << <<"Alpha", "A", "A-x">>, <<"Beta", "B-2", "B">>, <<"Gamma", "C", "C-Long-Name-3">>, <<"Delta", "D", "D-d-D">>, <<"Epsilon", "E", "E5">> >>
ValuePool == << <<"alpha", "v", "v-1">>, <<"beta", "w", "w-Two">>, <<"gamma", "x9", "x-y-z">> >>
FieldPool == << <<"a", "first", "a-b">>, <<"b", "secondOne", "b-1-c">>, <<"c", "third-Field", "cC">>, <<"d", "fourth", "d-x">> >>
CgPool == [t1 |-> TypePool[1], t2 |-> TypePool[2], t3 |-> TypePool[3], t4 |-> TypePool[4], t5 |-> TypePool[5],
           v1 |-> ValuePool[1], v2 |-> ValuePool[2], v3 |-> ValuePool[3],
           n1 |-> <<"0", "1", "31">>, n2 |-> <<"1", "30", "127">>, n3 |-> <<"2", "31", "128">>, n4 |-> <<"5", "200", "16384">>,
           f1 |-> FieldPool[1], f2 |-> FieldPool[2], f3 |-> FieldPool[3], f4 |-> FieldPool[4]]

CgHead == <<L_("upper"), P_(<<>>), T_("DEFINITIONS"), N_("CgTags"), P_(FALSE), T_("::="), T_("BEGIN"), P_(<<>>), P_(<<>>)>>
CgFoot == <<T_("END"), A_("module")>>
Asg(t, N) == <<L_(t), T_("::="), N_(N), A_("tassign"), A_("snoc")>>
Refs(ts) == [i \in 1..Len(ts) |-> <<L_(ts[i]), A_("ref")>>]
Comp1(f, rest) == <<L_(f), N_("CgT")>> \o rest
Comps1(f) == << Comp1(f, <<P_(none), A_("comp")>>), Comp1(f, <<T_("OPTIONAL"), A_("compopt")>>),
                <<L_(f), N_("CgInt"), T_("DEFAULT"), N_("Signed"), A_("comp")>>,
                <<L_(f), T_("BOOLEAN"), P_(Rec1("BOOLEAN")), T_("DEFAULT"), N_("CgBool"), A_("comp")>>,
                Comp1(f, <<T_("DEFAULT"), N_("CgOther"), A_("comp")>>),
                <<T_("COMPONENTS"), T_("OF"), A_("gray"), L_("t2"), A_("ref"), A_("compsof")>> >>
Val(v, N) == << <<L_(v), N_("CgInt"), T_("::="), N_("Signed"), A_("vassign"), A_("snoc"), N_(N)>>,
                <<L_(v), N_("CgBoolT"), T_("::="), N_("CgBool"), A_("vassign"), A_("snoc"), N_(N)>>,
                <<L_(v), N_("CgRealT"), T_("::="), N_("CgReal"), A_("vassign"), A_("snoc"), N_(N)>>,
                <<L_(v), N_("CgT"), T_("::="), N_("CgOther"), A_("vassign"), A_("snoc"), N_(N)>> >>

\* components on the wire: field f, tag number n
WTagged(n, T) == <<T_("["), N_("Class"), L_(n), A_("num"), T_("]"), N_("CgMode")>> \o T \o <<A_("tagged")>>
WComp(f, n) == << <<L_(f), N_("WT"), P_(none), A_("comp")>>, <<L_(f)>> \o WTagged(n, <<N_("WT")>>) \o <<P_(none), A_("comp")>>,
                  <<L_(f), N_("WT"), T_("OPTIONAL"), A_("compopt")>>, <<L_(f)>> \o WTagged(n, <<N_("WT")>>) \o <<T_("OPTIONAL"), A_("compopt")>>,
                  <<L_(f), N_("WInt"), T_("DEFAULT"), N_("Signed"), A_("comp")>>, <<L_(f)>> \o WTagged(n, <<N_("WInt")>>) \o <<T_("DEFAULT"), N_("Signed"), A_("comp")>> >>
\* what needs a package, one of its own or together with others, or none
Needs(t, v, N) == << Asg(t, "CgNeed") \o <<N_(N)>>,
                     <<L_(v), T_("REAL"), P_(Rec1("REAL")), T_("::="), N_("CgInf"), A_("vassign"), A_("snoc"), N_(N)>>,
                     <<L_(v), T_("INTEGER"), P_(Int0), T_("::="), N_("Signed"), A_("vassign"), A_("snoc"), N_(N)>> >>
WAlt(f, n) == << <<L_(f)>> \o WTagged(n, <<N_("WT")>>) \o <<A_("alt")>> >>

CG == [ CgTags |-> << <<P_("EXPLICIT")>>, <<T_("IMPLICIT"), T_("TAGS"), P_("IMPLICIT")>>, <<T_("EXPLICIT"), T_("TAGS"), P_("EXPLICIT")>>,
                     <<T_("AUTOMATIC"), T_("TAGS"), A_("gray"), P_("AUTOMATIC")>> >>,
       \* what encoding/asn1 represents
       WInt |-> << <<T_("INTEGER"), P_(Int0)>>, <<T_("INTEGER"), P_(Int0), N_("CgConstr"), A_("constr")>>, <<L_("t2"), A_("ref")>> >>,
       WLeaf |-> << <<T_("BOOLEAN"), P_(Rec1("BOOLEAN"))>>, <<T_("OCTET"), T_("STRING"), P_(Rec1("OCTETS"))>>, <<T_("BIT"), T_("STRING"), P_([k |-> "BITS", bits |-> <<>>])>>,
                    <<T_("OBJECT"), T_("IDENTIFIER"), P_(Rec1("OID"))>>, <<T_("PrintableString"), P_([k |-> "STR", s |-> "PrintableString"])>>,
                    <<T_("UTCTime"), P_([k |-> "REF", n |-> "UTCTime"])>>,
                    <<T_("ENUMERATED"), T_("{"), P_(<<>>), L_("f1"), T_("("), T_("0"), P_([k |-> "num", v |-> "0"]), T_(")"), A_("nn"), A_("snoc"), T_(","),
                      L_("f2"), T_("("), T_("5"), P_([k |-> "num", v |-> "5"]), T_(")"), A_("nn"), A_("snoc"), P_(<<>>), T_("}"), A_("enum")>> >>,
       WMark |-> << <<T_("UTF8String"), P_([k |-> "STR", s |-> "UTF8String"])>>, <<T_("IA5String"), P_([k |-> "STR", s |-> "IA5String"])>>,
                    <<T_("NumericString"), P_([k |-> "STR", s |-> "NumericString"])>>, <<T_("GeneralizedTime"), P_([k |-> "REF", n |-> "GeneralizedTime"])>> >>,
       WT |-> << <<T_("INTEGER"), P_(Int0)>>, <<L_("t2"), A_("ref")>>, <<L_("t3"), A_("ref")>>, <<N_("WLeaf")>>, <<N_("WMark")>>, <<N_("WSeq")>>,
                 <<T_("SET"), T_("{"), N_("WComps"), T_("}"), A_("set")>>,
                 <<T_("SEQUENCE"), T_("OF"), N_("WT"), A_("seqof")>>, <<T_("SET"), T_("OF"), N_("WT"), A_("setof")>>,
                 <<T_("SEQUENCE"), N_("CgConstr"), T_("OF"), N_("WT"), A_("cseqof")>>, <<T_("SET"), N_("CgConstr"), T_("OF"), N_("WT"), A_("csetof")>>,
                 <<N_("WT"), N_("CgConstr"), A_("constr")>>, <<N_("WChoice")>> >>,
       WChoice |-> << <<T_("CHOICE"), T_("{"), P_(<<>>), N_("WA1"), A_("snoc"), T_(","), N_("WA2"), A_("snoc"), P_(<<>>), T_("}"), A_("choice")>>,
                      <<T_("CHOICE"), T_("{"), P_(<<>>), N_("WA1"), A_("snoc"), T_(","), N_("WA2"), A_("snoc"), T_(","), N_("WA3"), A_("snoc"), T_(","), T_("..."), P_(<<>>), T_("}"), A_("choice")>>,
                      <<T_("CHOICE"), T_("{"), P_(<<>>), L_("f1"), T_("INTEGER"), P_(Int0), A_("alt"), A_("snoc"), T_(","),
                        L_("f2"), T_("OBJECT"), T_("IDENTIFIER"), P_(Rec1("OID")), A_("alt"), A_("snoc"), T_(","), L_("f3"), T_("OCTET"), T_("STRING"), P_(Rec1("OCTETS")), A_("alt"), A_("snoc"), P_(<<>>), T_("}"), A_("choice")>> >>,
       WA1 |-> WAlt("f1", "n1"), WA2 |-> WAlt("f2", "n2"), WA3 |-> WAlt("f3", "n3"),
       WSeq |-> << <<T_("SEQUENCE"), T_("{"), N_("WComps"), T_("}"), A_("seq")>> >>,
       WComps |-> << <<P_(<<>>), N_("WC1"), A_("snoc"), N_("WCM2"), P_(<<>>)>>, <<P_(<<>>), P_(<<>>)>>,
                     <<P_(<<>>), N_("WC1"), A_("snoc"), N_("WCM2"), T_(","), T_("..."), P_(<<>>)>>,
                     <<P_(<<>>), N_("WC1"), A_("snoc"), T_(","), T_("..."), T_(","), P_(<<>>), N_("WC2"), A_("snoc"), N_("WCM3")>> >>,
       WC1 |-> WComp("f1", "n1"), WC2 |-> WComp("f2", "n2"), WC3 |-> WComp("f3", "n3"), WC4 |-> WComp("f4", "n4"),
       WCM2 |-> << <<T_(","), N_("WC2"), A_("snoc"), N_("WCM3")>>, <<>> >>,
       WCM3 |-> << <<>>, <<T_(","), N_("WC3"), A_("snoc"), N_("WCM4")>> >>,
       WCM4 |-> << <<>>, <<T_(","), N_("WC4"), A_("snoc")>> >>,
       \* any module
       Cg1 |-> << Asg("t1", "CgT") \o <<N_("Cg2")>>, <<N_("Cg2")>> >> \o Val("v1", "Cg2"),
       Cg2 |-> << <<>>, Asg("t2", "CgT") \o <<N_("Cg3")>>, <<N_("Cg3")>> >> \o Val("v2", "Cg3"),
       Cg3 |-> << <<>>, Asg("t3", "CgT") \o <<N_("Cg4")>>, <<N_("Cg4")>> >> \o Val("v3", "Cg4"),
       Cg4 |-> << <<>>, Asg("t4", "CgT") \o <<N_("Cg5")>>, <<N_("Cg5")>> >>,
       Cg5 |-> << <<>>, Asg("t5", "CgT") >>,
       \* types
       CgT |-> << <<T_("INTEGER"), P_(Int0)>>, <<N_("CgRef")>>, <<N_("CgLeaf")>>, <<N_("CgNest")>>, <<A_("gray"), N_("CgOdd")>> >>,
       CgRef |-> Refs(<<"t2", "t3", "t1">>) \o << <<L_("t4"), A_("gray"), A_("ref")>>, <<L_("t5"), A_("gray"), A_("ref")>> >>,
       CgLeaf |-> << <<T_("BOOLEAN"), P_(Rec1("BOOLEAN"))>>, <<T_("REAL"), P_(Rec1("REAL"))>>, <<T_("OCTET"), T_("STRING"), P_(Rec1("OCTETS"))>>,
                     <<T_("BIT"), T_("STRING"), P_([k |-> "BITS", bits |-> <<>>])>>, <<T_("BIT"), T_("STRING"), T_("{"), N_("BitList"), T_("}"), A_("bits")>>,
                     <<T_("ENUMERATED"), T_("{"), P_(<<>>), N_("EnumItem"), A_("snoc"), N_("EnumMore"), P_(<<>>), T_("}"), A_("enum")>>,
                     <<T_("OBJECT"), T_("IDENTIFIER"), P_(Rec1("OID"))>>, <<T_("ANY"), P_([k |-> "ANY", by |-> ""])>>,
                     <<T_("ANY"), T_("DEFINED"), T_("BY"), L_("f1"), A_("anyby")>>,
                     <<T_("CHARACTER"), T_("STRING"), P_(Rec1("CHARSTRING"))>>, <<N_("StringType")>>,
                     <<T_("GeneralizedTime"), P_([k |-> "REF", n |-> "GeneralizedTime"])>>, <<T_("UTCTime"), P_([k |-> "REF", n |-> "UTCTime"])>>,
                     <<T_("INTEGER"), T_("{"), N_("CgNums"), T_("}"), A_("integer")>> >>,
       CgNest |-> << <<N_("CgTag"), N_("CgMode"), N_("CgT"), A_("tagged")>>, <<N_("CgT"), N_("CgConstr"), A_("constr")>>,
                     <<T_("SEQUENCE"), T_("{"), N_("CgComps"), T_("}"), A_("seq")>>, <<T_("SET"), T_("{"), N_("CgComps"), T_("}"), A_("set")>>,
                     <<T_("SEQUENCE"), T_("OF"), N_("CgT"), A_("seqof")>>, <<T_("SET"), T_("OF"), N_("CgT"), A_("setof")>>,
                     <<T_("SEQUENCE"), N_("CgConstr"), T_("OF"), N_("CgT"), A_("cseqof")>>, <<T_("SET"), N_("CgConstr"), T_("OF"), N_("CgT"), A_("csetof")>>,
                     <<T_("CHOICE"), T_("{"), N_("CgAlts"), P_(<<>>), T_("}"), A_("choice")>>,
                     <<T_("CHOICE"), T_("{"), N_("CgAlts"), T_(","), T_("..."), P_(<<>>), T_("}"), A_("choice")>> >>,
       CgOdd |-> << <<T_("NULL"), P_(Rec1("NULL"))>>, <<T_("SEQUENCE"), T_("OF"), L_("f1"), N_("CgT"), A_("named"), A_("seqof")>>,
                    <<T_("SET"), T_("OF"), L_("f1"), N_("CgT"), A_("named"), A_("setof")>>, <<T_("Missing"), P_([k |-> "REF", n |-> "Missing"])>> >>,
       CgTag |-> << <<T_("["), N_("Class"), L_("num"), A_("num"), T_("]")>>,
                    <<T_("["), N_("Class"), L_("v1"), A_("gray"), A_("dv"), T_("]")>>,
                    <<T_("["), N_("Class"), A_("gray"), L_("upper"), T_("."), L_("lower"), A_("mdv"), T_("]")>> >>,
       CgMode |-> << <<P_("DEFAULT")>>, <<T_("IMPLICIT"), P_("IMPLICIT")>>, <<T_("EXPLICIT"), P_("EXPLICIT")>> >>,
       CgConstr |-> << <<T_("("), T_("SIZE"), T_("("), L_("num"), A_("num"), A_("val"), A_("one"), T_(")"), A_("size"), A_("one"), T_(")")>>,
                       <<T_("("), L_("num"), A_("num"), A_("val"), A_("one"), T_(")")>>,
                       <<T_("("), T_("Missing"), P_([k |-> "tc", t |-> [k |-> "REF", n |-> "Missing"]]), A_("one"), T_(")")>>,
                       <<T_("("), T_("MIN"), T_(".."), T_("MAX"), P_([k |-> "range", lo |-> [v |-> none, open |-> FALSE], hi |-> [v |-> none, open |-> FALSE]]), A_("one"), T_(")")>>,
                       <<T_("("), T_("NULL"), P_([k |-> "tc", t |-> Rec1("NULL")]), A_("one"), T_(")")>> >>,
       CgComps |-> << <<P_(<<>>), N_("CgC1"), A_("snoc"), N_("CgCM2"), P_(<<>>)>>,
                      <<P_(<<>>), P_(<<>>)>>,
                      <<P_(<<>>), N_("CgC1"), A_("snoc"), N_("CgCM2"), T_(","), T_("..."), P_(<<>>)>>,
                      <<P_(<<>>), N_("CgC1"), A_("snoc"), T_(","), T_("..."), T_(","), P_(<<>>), N_("CgC2"), A_("snoc"), N_("CgCM3")>>,
                      <<P_(<<>>), T_("..."), P_(<<>>)>>, <<P_(<<>>), T_("..."), T_(","), T_("..."), P_(<<>>)>>,
                      <<P_(<<>>), N_("CgC1"), A_("snoc"), T_(","), N_("CgC2"), A_("snoc"), T_(","), T_("..."), T_("!"), L_("num"), A_("drop"), T_(","), P_(<<>>), N_("CgC3"), A_("snoc"), N_("CgCM4")>> >>,
       CgC1 |-> Comps1("f1"), CgC2 |-> Comps1("f2"), CgC3 |-> Comps1("f3"), CgC4 |-> Comps1("f4"),
       CgCM2 |-> << <<>>, <<T_(","), N_("CgC2"), A_("snoc"), N_("CgCM3")>> >>,
       CgCM3 |-> << <<>>, <<T_(","), N_("CgC3"), A_("snoc"), N_("CgCM4")>> >>,
       CgCM4 |-> << <<>>, <<T_(","), N_("CgC4"), A_("snoc")>> >>,
       CgAlts |-> << <<P_(<<>>), L_("f1"), N_("CgT"), A_("alt"), A_("snoc"), N_("CgA2")>> >>,
       CgA2 |-> << <<>>, <<T_(","), L_("f2"), N_("CgT"), A_("alt"), A_("snoc"), N_("CgA3")>> >>,
       CgA3 |-> << <<>>, <<T_(","), L_("f3"), N_("CgT"), A_("alt"), A_("snoc")>> >>,
       \* numbers and values
       CgNums |-> << <<P_(<<>>), N_("CgN1"), A_("snoc"), N_("CgNM2")>> >>,
       CgNM2 |-> << <<>>, <<T_(","), N_("CgN2"), A_("snoc"), N_("CgNM3")>> >>,
       CgNM3 |-> << <<>>, <<T_(","), N_("CgN3"), A_("snoc")>> >>,
       CgN1 |-> << <<L_("f1"), T_("("), N_("Signed"), T_(")"), A_("nn")>>, <<L_("f1"), T_("("), L_("v1"), A_("dv"), T_(")"), A_("nn")>> >>,
       CgN2 |-> << <<L_("f2"), T_("("), N_("Signed"), T_(")"), A_("nn")>>, <<L_("f2"), T_("("), L_("v2"), A_("dv"), T_(")"), A_("nn")>>,
                   <<L_("f2"), T_("("), A_("gray"), L_("upper"), T_("."), L_("v1"), A_("mdv"), T_(")"), A_("nn")>> >>,
       CgN3 |-> << <<L_("f3"), T_("("), N_("Signed"), T_(")"), A_("nn")>>, <<L_("f3"), T_("("), L_("v3"), A_("dv"), T_(")"), A_("nn")>>,
                   <<L_("f3"), T_("("), A_("gray"), T_("missing"), P_([k |-> "dv", m |-> "", n |-> "missing"]), T_(")"), A_("nn")>> >>,
       CgBool |-> << <<T_("TRUE"), P_([k |-> "bool", v |-> TRUE])>>, <<T_("FALSE"), P_([k |-> "bool", v |-> FALSE])>> >>,
       CgReal |-> << <<L_("real"), A_("real")>>, <<T_("-"), L_("real"), A_("negreal")>>, <<N_("Signed")>>,
                     <<T_("PLUS-INFINITY"), P_([k |-> "real", v |-> "inf"])>>, <<T_("MINUS-INFINITY"), P_([k |-> "real", v |-> "-inf"])>> >>,
       CgOther |-> << <<L_("v1"), A_("ident")>>, <<L_("lower"), A_("ident")>>, <<N_("OidVal")>> >>,
       CgInt |-> << <<T_("INTEGER"), P_(Int0)>>, <<T_("INTEGER"), P_(Int0), N_("CgConstr"), A_("constr")>>,
                    <<N_("CgTag"), N_("CgMode"), T_("INTEGER"), P_(Int0), A_("tagged")>>, <<T_("INTEGER"), T_("{"), N_("CgNums"), T_("}"), A_("integer")>>,
                    <<L_("t2"), A_("ref")>>, <<L_("t1"), A_("ref")>>, <<L_("t3"), A_("ref")>>, <<T_("Missing"), A_("gray"), P_([k |-> "REF", n |-> "Missing"])>> >>,
       CgBoolT |-> << <<T_("BOOLEAN"), P_(Rec1("BOOLEAN"))>>, <<T_("BOOLEAN"), P_(Rec1("BOOLEAN")), N_("CgConstr"), A_("constr")>>, <<L_("t2"), A_("ref")>>, <<L_("t3"), A_("ref")>> >>,
       CgRealT |-> << <<T_("REAL"), P_(Rec1("REAL"))>>, <<N_("CgTag"), N_("CgMode"), T_("REAL"), P_(Rec1("REAL")), A_("tagged")>>,
                      <<T_("REAL"), P_(Rec1("REAL")), N_("CgConstr"), A_("constr")>>, <<L_("t3"), A_("ref")>>, <<L_("t2"), A_("ref")>> >>,
       \* packages
       CgNeed |-> << <<T_("BIT"), T_("STRING"), P_([k |-> "BITS", bits |-> <<>>])>>, <<T_("UTCTime"), P_([k |-> "REF", n |-> "UTCTime"])>>, <<T_("INTEGER"), P_(Int0)>>,
                     <<N_("CgNeed2")>> >>,
       CgNeed2 |-> << <<T_("SET"), T_("{"), P_(<<>>), L_("f1"), N_("CgNeed"), P_(none), A_("comp"), A_("snoc"), P_(<<>>), T_("}"), A_("set")>>,
                      <<T_("SEQUENCE"), T_("OF"), N_("CgNeed"), A_("seqof")>> >>,
       CgInf |-> << <<T_("PLUS-INFINITY"), P_([k |-> "real", v |-> "inf"])>>, <<L_("real"), A_("real")>> >>,
       CgP1 |-> Needs("t1", "v1", "CgP2"), CgP2 |-> Needs("t2", "v2", "CgP3"), CgP3 |-> Needs("t3", "v3", "CgP4"),
       CgP4 |-> Needs("t4", "f4", "CgP5"), CgP5 |-> << <<>>, Asg("t5", "CgNeed") >>,
       \* focused forms
       CgStruct |-> << <<T_("SEQUENCE"), T_("{"), N_("CgComps"), T_("}"), A_("seq")>>, <<T_("SET"), T_("{"), N_("CgComps"), T_("}"), A_("set")>> >>,
       \* reference graphs: every definition is a reference, wrapped or not, or ends the chain
       CgLink |-> << <<N_("CgEnd")>>, <<N_("CgRef3")>>, <<T_("["), P_("CONTEXT"), L_("num"), A_("num"), T_("]"), P_("DEFAULT"), N_("CgRef3"), A_("tagged")>>,
                     <<N_("CgRef3"), N_("CgConstr"), A_("constr")>> >>,
       CgRef3 |-> << <<L_("t1"), A_("ref")>>, <<L_("t2"), A_("ref")>>, <<L_("t3"), A_("ref")>>, <<T_("Missing"), A_("gray"), P_([k |-> "REF", n |-> "Missing"])>> >>,
       CgEnd |-> << <<T_("INTEGER"), P_(Int0)>>, <<T_("UTF8String"), P_([k |-> "STR", s |-> "UTF8String"])>>,
                    <<T_("SET"), T_("{"), P_(<<>>), P_(<<>>), T_("}"), A_("set")>>, <<T_("BIT"), T_("STRING"), P_([k |-> "BITS", bits |-> <<>>])>>,
                    <<T_("UTCTime"), P_([k |-> "REF", n |-> "UTCTime"])>>, <<T_("SET"), T_("OF"), T_("BOOLEAN"), P_(Rec1("BOOLEAN")), A_("setof")>>,
                    <<T_("["), P_("CONTEXT"), L_("num"), A_("num"), T_("]"), P_("DEFAULT"), T_("IA5String"), P_([k |-> "STR", s |-> "IA5String"]), A_("tagged")>>,
                    <<T_("GeneralizedTime"), P_([k |-> "REF", n |-> "GeneralizedTime"]), N_("CgConstr"), A_("constr")>>,
                    <<T_("CHOICE"), T_("{"), P_(<<>>), L_("f1"), T_("NULL"), P_(Rec1("NULL")), A_("alt"), A_("snoc"), T_(","), L_("f2"), T_("REAL"), P_(Rec1("REAL")), A_("alt"), A_("snoc"), P_(<<>>), T_("}"), A_("choice")>>,
                    <<T_("CHOICE"), T_("{"), P_(<<>>), L_("f1"), N_("CgRef3"), A_("alt"), A_("snoc"), T_(","), L_("f2"), N_("CgRef3"), A_("alt"), A_("snoc"), P_(<<>>), T_("}"), A_("choice")>> >>,
       CgValTail |-> << <<>>, <<L_("v1"), N_("CgInt"), T_("::="), N_("Signed"), A_("vassign"), A_("snoc"), N_("CgValTail2")>>, <<N_("CgValTail2")>> >> \o Val("v1", "CgValTail2"),
       CgValTail2 |-> << <<>>, <<N_("CgValTail3")>> >> \o Val("v2", "CgValTail3"),
       CgValTail3 |-> << <<>> >> \o Val("v3", "CgNone"),
       CgNone |-> << <<>> >>,
       CgNumT |-> << <<T_("INTEGER"), T_("{"), N_("CgNums"), T_("}"), A_("integer")>>, <<T_("INTEGER"), P_(Int0)>>, <<T_("REAL"), P_(Rec1("REAL"))>>,
                     <<T_("BOOLEAN"), P_(Rec1("BOOLEAN"))>>, <<L_("t1"), A_("ref")>>, <<L_("t3"), A_("ref")>>,
                     <<N_("CgTag"), N_("CgMode"), T_("INTEGER"), T_("{"), N_("CgNums"), T_("}"), A_("integer"), A_("tagged")>>,
                     <<T_("INTEGER"), T_("{"), N_("CgNums"), T_("}"), A_("integer"), N_("CgConstr"), A_("constr")>> >> ]

CgStart == [ \* a structure on the wire, and what it refers to; other types on the wire
             wire |-> CgHead \o Asg("t1", "WSeq") \o Asg("t2", "WT") \o Asg("t3", "WT") \o CgFoot,
             wirelate |-> CgHead \o Asg("t3", "WT") \o Asg("t2", "WT") \o Asg("t1", "WSeq") \o CgFoot,
             wiretop |-> CgHead \o Asg("t1", "WT") \o Asg("t2", "WT") \o Asg("t3", "WT") \o CgFoot,
             cg |-> CgHead \o <<N_("Cg1")>> \o CgFoot,
             \* a structure and what it refers to
             cgstruct |-> CgHead \o Asg("t1", "CgStruct") \o Asg("t2", "CgT") \o Asg("t3", "CgT") \o CgFoot,
             \* declarations
             cgtypes |-> CgHead \o Asg("t2", "CgT") \o Asg("t1", "CgT") \o Asg("t3", "CgT") \o CgFoot,
             cgone |-> CgHead \o Asg("t1", "CgT") \o CgFoot,
             \* reference graphs over three names, used from a structure before and after the definitions
             cggraph |-> CgHead \o <<L_("t4"), T_("::="), T_("SEQUENCE"), T_("{"), P_(<<>>), L_("f1"), N_("CgRef3"), P_(none), A_("comp"), A_("snoc"), P_(<<>>), T_("}"), A_("seq"), A_("tassign"), A_("snoc")>>
                          \o Asg("t1", "CgLink") \o Asg("t2", "CgLink") \o Asg("t3", "CgLink")
                          \o <<L_("t5"), T_("::="), T_("SEQUENCE"), T_("{"), P_(<<>>), L_("f2"), N_("CgRef3"), T_("OPTIONAL"), A_("compopt"), A_("snoc"), P_(<<>>), T_("}"), A_("seq"), A_("tassign"), A_("snoc")>>
                          \o CgFoot,
             cgpackages |-> CgHead \o <<N_("CgP1")>> \o CgFoot,
             cgvalues |-> CgHead \o Asg("t1", "CgNumT") \o <<N_("CgValTail")>> \o Asg("t2", "CgNumT") \o Asg("t3", "CgNumT") \o CgFoot ]

CgAct(x, vs) ==
  CASE x = "one" -> Push(vs, 1, <<OneElem(Top(vs, 0))>>)
=============================================================================
