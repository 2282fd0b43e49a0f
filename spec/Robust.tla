------------------------------- MODULE Robust -------------------------------
(* Texts of every kind, to be answered by a module or an error: there is no
   other outcome and no input without an answer.  A text is a list of units
   <<characters, repetitions>>.
     nest   a construct opened n times and closed m times: a module exactly
            when n = m, and then with n levels
     list   a list of n elements
     noise  any units in any order, inside a module or not
     cut    every prefix of a derived text, and derived texts with noise in it *)
EXTENDS Gen, LexRules

CONSTANTS Mode, Sizes, Count,
          LongWord,         \* how long words, numbers and comments become when lists are as long as they get
          LongList          \* no longer lists: the real parser keeps all beginnings of some

\* which text this is; state of the answering parser: "reading" until it answers
VARIABLES what, answer
rvars == <<stk, out, vs, fuel, salt, done, what, answer>>

S_(s) == IF s = "\n" THEN <<10>> ELSE IF s = "`" THEN <<96>> ELSE TLCEval(Codes(s))
One(s) == <<S_(s), 1>>
High == 1114112

\* opening, core, closing, what the levels are
Nests == <<
  [o |-> "SEQUENCE OF ", c |-> "INTEGER ", e |-> "", k |-> "SequenceOfType"],
  [o |-> "SET OF ", c |-> "REAL ", e |-> "", k |-> "SetOfType"],
  [o |-> "SET SIZE(1)OF ", c |-> "B ", e |-> "", k |-> "SetOfType"],
  [o |-> "SEQUENCE{a ", c |-> "BOOLEAN ", e |-> "}", k |-> "SequenceType"],
  [o |-> "SET{a ", c |-> "NULL ", e |-> " OPTIONAL}", k |-> "SetType"],
  [o |-> "CHOICE{a ", c |-> "B ", e |-> "}", k |-> "ChoiceType"],
  [o |-> "SEQUENCE{a B,...,b ", c |-> "B ", e |-> "}", k |-> "SequenceType"],
  [o |-> "[1]", c |-> "INTEGER ", e |-> "", k |-> "TaggedType"],
  [o |-> "[APPLICATION 7]EXPLICIT ", c |-> "B ", e |-> "", k |-> "TaggedType"],
  [o |-> "SEQUENCE OF x ", c |-> "B ", e |-> "", k |-> "SequenceOfType"],
  [o |-> "SEQUENCE(", c |-> "1", e |-> ")OF INTEGER ", k |-> ""],
  [o |-> "INTEGER(", c |-> "1", e |-> ")", k |-> ""] >>
\* the same for constraints of a type
Brackets == <<
  [o |-> "(", c |-> "1", e |-> ")", k |-> ""],
  [o |-> "(ALL EXCEPT(", c |-> "1", e |-> "))", k |-> ""],
  [o |-> "(SIZE(", c |-> "1..2", e |-> "))", k |-> ""],
  [o |-> "(1|(", c |-> "MIN..MAX", e |-> ")|2)", k |-> ""],
  [o |-> "(WITH COMPONENT(", c |-> "1", e |-> "))", k |-> ""],
  [o |-> "(WITH COMPONENTS{a(", c |-> "1", e |-> ")})", k |-> ""],
  [o |-> "(1^(2 EXCEPT(", c |-> "3", e |-> ")))", k |-> ""],
  [o |-> "(1)", c |-> "(2)", e |-> "", k |-> ""],
  [o |-> "(1!A:5)", c |-> "(2)", e |-> "", k |-> ""] >>
\* before, element, last, after, what there are n + 1 of
ListsOf == <<
  [b |-> "A::=SEQUENCE{", el |-> "a B,", l |-> "z B", e |-> "}", k |-> "NamedComponentType"],
  [b |-> "A::=SET{a B,...,", el |-> "a B OPTIONAL,", l |-> "z B DEFAULT 1", e |-> "}", k |-> ""],
  [b |-> "A::=SEQUENCE{", el |-> "COMPONENTS OF B,", l |-> "COMPONENTS OF B", e |-> "}", k |-> "ComponentsOfComponentType"],
  [b |-> "A::=CHOICE{", el |-> "a[0]B,", l |-> "z B", e |-> "}", k |-> "NamedType"],
  [b |-> "A::=CHOICE{a NULL,...,", el |-> "a[0]B,", l |-> "z B", e |-> "}", k |-> ""],
  [b |-> "A::=ENUMERATED{", el |-> "a,", l |-> "z(3)", e |-> "}", k |-> ""],
  [b |-> "A::=BIT STRING{", el |-> "a(1),", l |-> "z(v)", e |-> "}", k |-> "NamedBit"],
  [b |-> "A::=INTEGER{", el |-> "a(-1),", l |-> "z(M.v)", e |-> "}", k |-> "NamedNumber"],
  [b |-> "A::=INTEGER(", el |-> "1|", l |-> "2", e |-> ")", k |-> ""],
  [b |-> "A::=INTEGER(", el |-> "1 INTERSECTION ", l |-> "2", e |-> ")", k |-> ""],
  [b |-> "", el |-> "A::=B ", l |-> "C::=B", e |-> "", k |-> "TypeAssignment"],
  [b |-> "", el |-> "a B::=-5 ", l |-> "c B::=1.5E3", e |-> "", k |-> "ValueAssignment"],
  [b |-> "a OBJECT IDENTIFIER::={", el |-> "1 ", l |-> "x(5)", e |-> "}", k |-> ""],
  [b |-> "IMPORTS ", el |-> "A,", l |-> "b", e |-> " FROM X;A::=B", k |-> ""],
  [b |-> "IMPORTS ", el |-> "A FROM X ", l |-> "b FROM Y{1 2}", e |-> ";A::=B", k |-> "SymbolsFromModule"],
  [b |-> "EXPORTS ", el |-> "A,", l |-> "b", e |-> ";A::=B", k |-> ""],
  [b |-> "", el |-> "/*", l |-> "", e |-> "", k |-> "open"],
  [b |-> "", el |-> "-- ", l |-> "", e |-> "\n", k |-> "odd"],
  [b |-> "A::=", el |-> "B", l |-> "", e |-> "", k |-> "TypeAssignment1"],
  [b |-> "A::=B-", el |-> "b", l |-> "", e |-> "", k |-> "TypeAssignment1"],
  [b |-> "A::=", el |-> "B-", l |-> "B", e |-> "", k |-> "TypeAssignment1"],
  [b |-> "a B::=1.", el |-> "7", l |-> "", e |-> "", k |-> ""],
  [b |-> "a B::=1", el |-> "0", l |-> ".5", e |-> "", k |-> ""],
  [b |-> "a B::=", el |-> "0", l |-> "1", e |-> "", k |-> "ValueAssignment1"],
  [b |-> "a B::=", el |-> "9", l |-> "9", e |-> "", k |-> ""],
  [b |-> "a B::=1E", el |-> "9", l |-> "9", e |-> "", k |-> ""],
  [b |-> "a B::=1E-", el |-> "9", l |-> "9", e |-> "", k |-> ""],
  [b |-> "a B::=", el |-> "-", l |-> "1", e |-> "", k |-> ""],
  [b |-> "A::=", el |-> "[", l |-> "1]B", e |-> "", k |-> ""],
  [b |-> "A::=B", el |-> "\n", l |-> "", e |-> "", k |-> "TypeAssignment1"],
  [b |-> "", el |-> "...", l |-> "", e |-> "", k |-> ""],
  [b |-> "", el |-> "::=", l |-> "", e |-> "", k |-> ""],
  [b |-> "", el |-> ":", l |-> "", e |-> "", k |-> ""],
  [b |-> "", el |-> "\"", l |-> "", e |-> "", k |-> ""] >>

Head0 == "M DEFINITIONS::=BEGIN "
InModule(us) == <<One(Head0)>> \o us \o <<One(" END ")>>
NestText(x, pre, n, m) == InModule(<<One(pre), <<S_(x.o), n>>, One(x.c), <<S_(x.e), m>>>>)
ListText(x, n) == InModule(<<One(x.b), <<S_(x.el), n>>, One(x.l), One(x.e)>>)

\* closed as often as opened, where something closes at all
NestVerdict(x, n, m) == IF x.e = "" \/ n = m THEN "module" ELSE "error"

Noises == << S_("A"), S_(" "), S_("::="), S_("{"), S_("}"), S_("("), S_(")"), S_("["), S_("]"), S_(","), S_("..."), S_(".."), S_("."), S_("|"), S_("-"), S_("--"), S_("/*"), S_("*/"),
             S_("\n"), S_("\""), S_("'"), S_("SEQUENCE"), S_("OF"), S_("SIZE"), S_("END"), S_("BEGIN"), S_("DEFINITIONS"), S_("INTEGER"), S_("CHOICE"), S_("a"), S_("1"), S_("1.5"), S_("E5"),
             S_("9223372036854775808"), S_("IMPORTS"), S_("FROM"), S_(";"), S_("!"), S_(":"), S_("^"), S_("<"), S_("ALL"), S_("EXCEPT"), S_("WITH"), S_("COMPONENT"), S_("DEFAULT"), S_("TRUE"),
             S_("\\"), S_("%"), S_("#"), S_("`"), S_("@"), <<0>>, <<65533>>, <<High + 255>>, <<High + 192>>, <<High + 128>>, <<High + 237, High + 160, High + 128>>, <<High + 244, High + 144>>, <<1114111>>,
             <<65279>>, <<127>>, <<27>>, <<8232>>, <<955>>, <<233>>, <<1632>>, <<8217>>, <<65313>>, S_("[["), S_("]]"), S_("NULL"), S_("ENUMERATED"), S_("BIT STRING"), S_("MIN"), S_("MAX"), S_("foo-"), S_("a--b") >>
RepsOf(k) == CASE k % 11 = 0 -> 5000 [] k % 7 = 0 -> 300 [] k % 3 = 0 -> 2 [] OTHER -> 1
Noise(k, n) == [i \in 1..n |-> <<Pick(Noises, Mix(k + 31 * i)), RepsOf(Mix(Mix(k) + 7 * i))>>]

\* noise in a derived text: the items before, the noise, the items after (some of them dropped)
Spaced(ts) == [i \in 1..Len(ts) |-> <<Append(S_(ts[i]), 32), 1>>]
Spliced(k) == LET i == k % (Len(out) + 1)
                  d == (Mix(k + 1) % 3)
                  j == IF i + d > Len(out) THEN Len(out) ELSE i + d
              IN Spaced(SubSeq(out, 1, i)) \o Noise(k, 1 + (Mix(k + 2) % 3)) \o Spaced(SubSeq(out, j + 1, Len(out)))

----------------------------------------------------------------------------
Rec(us, verdict, level, n) == [units |-> us, verdict |-> verdict, level |-> level, n |-> n]
Report(r) == CSVWrite("%1$s", <<ToJson(r)>>, OutFile)

IsWord(i) == Len(ListsOf[i].el) = 1 \/ ListsOf[i].el \in {"/*", "-- ", "B-"}
ListLength(i, n) == IF n <= LongList THEN n ELSE IF IsWord(i) THEN LongWord ELSE LongList
Fixed ==
  CASE Mode = "nest" -> UNION {
         {<<"nest", i, n, m>> : i \in 1..Len(Nests), m \in {n, n - 1, n + 1}} \cup
         {<<"bracket", i, n, m>> : i \in 1..Len(Brackets), m \in {n, n - 1}} \cup
         {<<"list", i, ListLength(i, n), n>> : i \in 1..Len(ListsOf)} : n \in Sizes}
    [] OTHER -> {<<"derived", 0, 0, 0>>}
RInit == /\ what \in Fixed /\ answer = "reading"
         /\ Init
Answer ==
  /\ answer = "reading" /\ what[1] # "derived"
  /\ answer' = "answered"
  /\ LET n == what[3] m == what[4] IN
     CASE what[1] = "nest" -> LET x == Nests[what[2]] IN
            (Report(Rec(NestText(x, "A::=", n, m), IF x.k = "" THEN "any" ELSE NestVerdict(x, n, m), x.k, n)))
       [] what[1] = "bracket" -> LET x == Brackets[what[2]] IN Report(Rec(NestText(x, "A::=INTEGER", n, m), NestVerdict(x, n, m), "", n))
       [] what[1] = "list" -> LET x == ListsOf[what[2]] IN
            Report(Rec(ListText(x, n), IF x.k \in {"", "open", "odd"} THEN "any" ELSE "module", x.k, n + 1))
  /\ UNCHANGED <<stk, out, vs, fuel, salt, done, what>>
Derive == what[1] = "derived" /\ ~done /\ stk # <<>> /\ (WriteItem \/ WriteLexeme \/ Reduce \/ PushConst \/ Expand) /\ UNCHANGED <<what, answer>>
AnswerDerived ==
  /\ what[1] = "derived" /\ ~done /\ stk = <<>> /\ done' = TRUE /\ answer' = "answered"
  /\ Report([toks |-> out, prefixes |-> TRUE])
  /\ (\A i \in 1..Count : LET k == Mix(salt + 43 * i + 11 * Len(out)) IN
        /\ Report(Rec(Spliced(k), "any", "", 0))
        /\ Report(Rec(IF k % 2 = 0 THEN Noise(k, 1 + (k % 40)) ELSE InModule(<<One("A ::= ")>> \o Noise(k, 1 + (k % 20))), "any", "", 0))) = TRUE
  /\ UNCHANGED <<stk, out, vs, fuel, salt, what>>
RNext == Answer \/ Derive \/ AnswerDerived
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(RNext)
\* there is an answer to everything
Answers == <>(answer = "answered")
=============================================================================
