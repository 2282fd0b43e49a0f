-------------------------------- MODULE Gen --------------------------------
(* The notation as a transition system that writes a text while it builds the
   tree the text means.  A state is a left-most derivation in progress:
     stk   symbols still to be derived          out   items written so far
     vs    value stack of the semantic actions  fuel  deviations still allowed
   A step expands the next nonterminal.  Choosing any alternative but the first
   costs one unit of fuel, so a bounded run explores every derivation that
   deviates from the default one at most Fuel times; in simulation, salt seeds
   the choice of lexemes and which alternatives a behaviour may use (swarm).  *)
EXTENDS CgForms, FiniteSets, CSV, Json

CONSTANTS Form,        \* which start form
          SaltLo, SaltHi,   \* range of salts
          FuelLo, FuelHi,   \* range of initial fuels
          Swarm,       \* TRUE: each behaviour bans a third of the alternatives
          AllowGray,   \* TRUE: derive unclaimed notation, too
          OutFile

VARIABLES stk, out, vs, fuel, salt, done
vars == <<stk, out, vs, fuel, salt, done>>

\* ------------------------------------------------------------ start forms
Header == <<L_("upper"), P_(<<>>), T_("DEFINITIONS"), P_("EXPLICIT"), P_(FALSE), T_("::="), T_("BEGIN"), P_(<<>>), P_(<<>>)>>
Footer == <<T_("END"), A_("module")>>
\* extra nonterminals that focus on a part of the notation
F == [ TA |-> << <<L_("upper"), T_("::="), N_("Type"), A_("tassign"), A_("snoc")>> >>,
       TAMore |-> << <<>>, <<N_("TA"), N_("TAMore")>> >>,
       \* one constrained type
       CA |-> << <<L_("upper"), T_("::="), N_("CType"), A_("tassign"), A_("snoc")>> >>,
       CAMore |-> << <<>>, <<N_("CA"), N_("CAMore")>> >>,
       CType |-> << <<N_("CBase"), N_("Constr"), A_("constr"), N_("Constrs")>>,
                    <<T_("SEQUENCE"), N_("OfConstr"), T_("OF"), N_("CElem"), A_("cseqof")>>,
                    <<T_("SET"), N_("OfConstr"), T_("OF"), N_("CElem"), A_("csetof")>>,
                    <<T_("SEQUENCE"), T_("OF"), N_("CElem"), A_("seqof")>>,
                    <<N_("Tag"), N_("Mode"), N_("CType"), A_("tagged")>>,
                    <<T_("SEQUENCE"), T_("{"), P_(<<>>), L_("lower"), N_("CType"), P_(none), A_("comp"), A_("snoc"), P_(<<>>), T_("}"), A_("seq")>>,
                    <<T_("CHOICE"), T_("{"), P_(<<>>), L_("lower"), N_("CType"), A_("alt"), A_("snoc"), P_(<<>>), T_("}"), A_("choice")>> >>,
       CElem |-> << <<N_("CType")>>, <<L_("lower"), N_("CType"), A_("named")>>, <<N_("CBase")>> >>,
       CBase |-> << <<T_("INTEGER"), P_([k |-> "INTEGER", nums |-> <<>>])>>, <<L_("upper"), A_("ref")>>,
                    <<N_("StringType")>>, <<T_("OCTET"), T_("STRING"), P_(Rec1("OCTETS"))>>,
                    <<T_("BIT"), T_("STRING"), P_([k |-> "BITS", bits |-> <<>>])>>, <<T_("REAL"), P_(Rec1("REAL"))>>,
                    <<T_("BIT"), T_("STRING"), T_("{"), N_("BitList"), T_("}"), A_("bits")>>,
                    <<T_("INTEGER"), T_("{"), N_("NumList"), T_("}"), A_("integer")>>,
                    <<T_("SEQUENCE"), T_("{"), N_("Comps"), T_("}"), A_("seq")>> >>,
       \* one place for a value
       VA |-> << <<L_("lower"), N_("VType"), T_("::="), N_("Value"), A_("vassign"), A_("snoc")>>,
                 <<L_("upper"), T_("::="), T_("SEQUENCE"), T_("{"), P_(<<>>), N_("VComp"), A_("snoc"), N_("VCompMore"), P_(<<>>), T_("}"), A_("seq"), A_("tassign"), A_("snoc")>>,
                 <<L_("upper"), T_("::="), T_("SET"), T_("{"), P_(<<>>), N_("VComp"), A_("snoc"), N_("VCompMore"), T_(","), T_("..."), T_(","), P_(<<>>), N_("VComp"), A_("snoc"), N_("VCompMore"), T_("}"), A_("set"), A_("tassign"), A_("snoc")>>,
                 <<L_("upper"), T_("::="), N_("VType"), A_("tassign"), A_("snoc")>>,
                 <<L_("upper"), T_("::="), N_("Tag"), N_("Mode"), N_("VType"), A_("tagged"), A_("tassign"), A_("snoc")>>,
                 <<L_("upper"), T_("::="), N_("CBase"), N_("Constr"), A_("constr"), A_("tassign"), A_("snoc")>> >>,
       VAMore |-> << <<>>, <<N_("VA"), N_("VAMore")>> >>,
       VComp |-> << <<L_("lower"), N_("VType"), T_("DEFAULT"), N_("Value"), A_("comp")>>,
                    <<L_("lower"), N_("VType"), T_("OPTIONAL"), A_("compopt")>>,
                    <<L_("lower"), N_("VType"), P_(none), A_("comp")>>,
                    <<L_("lower"), N_("Tag"), N_("Mode"), N_("VType"), A_("tagged"), T_("DEFAULT"), N_("Value"), A_("comp")>> >>,
       VCompMore |-> << <<>>, <<T_(","), N_("VComp"), A_("snoc"), N_("VCompMore")>> >>,
       VType |-> << <<T_("INTEGER"), P_([k |-> "INTEGER", nums |-> <<>>])>>, <<T_("BOOLEAN"), P_(Rec1("BOOLEAN"))>>,
                    <<T_("REAL"), P_(Rec1("REAL"))>>, <<T_("OBJECT"), T_("IDENTIFIER"), P_(Rec1("OID"))>>, <<L_("upper"), A_("ref")>>,
                    <<T_("INTEGER"), T_("{"), N_("NumList"), T_("}"), A_("integer")>>,
                    <<T_("BIT"), T_("STRING"), T_("{"), N_("BitList"), T_("}"), A_("bits")>>,
                    <<T_("ENUMERATED"), T_("{"), P_(<<>>), N_("EnumItem"), A_("snoc"), N_("EnumMore"), P_(<<>>), T_("}"), A_("enum")>>,
                    <<T_("INTEGER"), P_([k |-> "INTEGER", nums |-> <<>>]), N_("Constr"), A_("constr")>> >> ]

Forms == [ module |-> <<N_("Module")>>,
           types |-> Header \o <<N_("TA"), N_("TAMore")>> \o Footer,
           constraints |-> Header \o <<N_("CA"), N_("CAMore")>> \o Footer,
           values |-> Header \o <<N_("VA"), N_("VAMore")>> \o Footer,
           header |-> <<L_("upper"), N_("OptOid"), T_("DEFINITIONS"), N_("Tags"), N_("Ext"), T_("::="), T_("BEGIN"),
                        N_("Exports"), N_("Imports"), P_(<<>>), N_("HA"), N_("HAMore"), T_("END"), A_("module")>>,
           body |-> <<L_("upper"), N_("OptOid"), T_("DEFINITIONS"), N_("Tags"), N_("Ext"), T_("::="), T_("BEGIN"),
                        N_("Exports"), N_("Imports"), N_("Assigns"), T_("END"), A_("module")>> ]
H == [ HA |-> << <<L_("upper"), T_("::="), L_("upper"), A_("ref"), A_("tassign"), A_("snoc")>>,
                 <<L_("lower"), L_("upper"), A_("ref"), T_("::="), N_("Signed"), A_("vassign"), A_("snoc")>> >>,
       HAMore |-> << <<>>, <<N_("HA"), N_("HAMore")>> >> ]

Alts(N) == IF N \in DOMAIN G THEN G[N] ELSE IF N \in DOMAIN CG THEN CG[N] ELSE IF N \in DOMAIN F THEN F[N] ELSE H[N]
Start == IF Form \in DOMAIN Forms THEN Forms[Form] ELSE CgStart[Form]

\* ------------------------------------------------------------ lexemes
WordNo == Mix(Mix(salt + 31 * Len(out)) + 17 * Len(out))
\* in one behaviour of four only two words are drawn of each pool, in one of eight only one: then
\* the same word stands in a place and beside it, which a draw from the whole pool seldom does
LexNo == IF salt % 8 = 7 THEN Mix(salt) ELSE IF salt % 4 = 3 THEN Mix(salt) + (WordNo % 2) ELSE WordNo
Lex(c) == CASE c = "upper" -> LET w == Pick(UpperPool, LexNo) IN [text |-> w, value |-> w]
            [] c = "lower" -> LET w == Pick(LowerPool, LexNo) IN [text |-> w, value |-> w]
            [] c = "num"   -> LET w == Pick(NumPool, LexNo)   IN [text |-> w, value |-> w]
            [] c = "real"  -> NthReal(WordNo)
            [] OTHER -> LET w == Pick(CgPool[c], Mix(salt)) IN [text |-> w, value |-> w]

IsGray(alt) == \E i \in 1..Len(alt) : alt[i] = A_("gray")
GrayOf(T) == [N \in DOMAIN T |-> {i \in 1..Len(T[N]) : \E j \in 1..Len(T[N][i]) : T[N][i][j][1] = "a" /\ T[N][i][j][2] = "gray"}]
GrayAlt == GrayOf(G) @@ GrayOf(CG)
Banned(N, i) == Swarm /\ (Mix(salt + 613 * i + 97 * Len(Alts(N)) + 29 * Len(Alts(N)[Len(Alts(N))])) % 3 = 0)
Choices(N) ==
  {i \in 1..Len(Alts(N)) :
     \/ i = 1
     \/ /\ fuel > 0
        /\ ~Banned(N, i)
        /\ AllowGray \/ ~(N \in DOMAIN GrayAlt /\ i \in GrayAlt[N]) }

\* ------------------------------------------------------------ transitions
Init == /\ salt \in SaltLo..SaltHi /\ fuel \in FuelLo..FuelHi
        /\ stk = Start /\ out = <<>> /\ vs = <<>> /\ done = FALSE

Live == ~done /\ stk # <<>>
Sym == stk[1]

WriteItem == /\ Live /\ Sym[1] = "t"
             /\ out' = Append(out, Sym[2]) /\ stk' = Tail(stk)
             /\ UNCHANGED <<vs, fuel, salt, done>>
WriteLexeme == /\ Live /\ Sym[1] = "l"
               /\ LET x == Lex(Sym[2]) IN out' = Append(out, x.text) /\ vs' = Append(vs, x.value)
               /\ stk' = Tail(stk) /\ UNCHANGED <<fuel, salt, done>>
Reduce == /\ Live /\ Sym[1] = "a"
          /\ vs' = (IF Sym[2] = "one" THEN CgAct(Sym[2], vs) ELSE Act(Sym[2], vs)) /\ stk' = Tail(stk)
          /\ UNCHANGED <<out, fuel, salt, done>>
PushConst == /\ Live /\ Sym[1] = "p"
             /\ vs' = Append(vs, Sym[2]) /\ stk' = Tail(stk)
             /\ UNCHANGED <<out, fuel, salt, done>>
Expand == /\ Live /\ Sym[1] = "n"
          /\ \E i \in Choices(Sym[2]) :
               /\ stk' = Alts(Sym[2])[i] \o Tail(stk)
               /\ fuel' = IF i = 1 THEN fuel ELSE fuel - 1
          /\ UNCHANGED <<out, vs, salt, done>>
Finish == /\ ~done /\ stk = <<>>
          /\ done' = TRUE
          /\ CSVWrite("%1$s", <<ToJson([toks |-> out, ast |-> vs[1]])>>, OutFile)
          /\ UNCHANGED <<stk, out, vs, fuel, salt>>

Next == WriteItem \/ WriteLexeme \/ Reduce \/ PushConst \/ Expand \/ Finish
Spec == Init /\ [][Next]_vars

\* A finished derivation leaves exactly one value: the module.
OneValue == stk = <<>> => Len(vs) = 1 /\ vs[1].k = "module"
=============================================================================
