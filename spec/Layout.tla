------------------------------- MODULE Layout -------------------------------
(* The same items, laid out differently: derived modules with other white space
   and comments between their items.  What may stand between two items is
   whatever the lexical rules read as nothing at all there.                    *)
EXTENDS Gen, LexRules

CONSTANTS Mode,   \* "each": every unit at every place of a text; "mixed": Count whole layouts per text
          Count

\* a unit is a sequence of <<characters, repetitions>>
U(cs) == << <<cs, 1>> >>
S_(s) == Codes(s)
High == 1114112
LineBody == << <<>>, S_(" x "), S_("-"), S_(" - "), S_("a-b-"), S_(" /* "), S_(" */"), S_("/*"), S_("*/"), S_("\""), <<233, 955>>, <<High + 255, High + 195>>, <<0>>,
               S_("END"), S_(" ::= BEGIN"), <<45, 9, 45>>, S_("*"), S_("/"), <<8232>>, <<133, 160>>, S_("...[["), S_(" 9999999999999999999999 "), S_("a--"), <<119808>>, <<65533>> >>
LineStop == << <<10>>, <<13>>, <<11>>, <<12>>, <<13, 10>>, <<45, 45>>, <<10, 45, 45>> >>
BlockBody == << <<>>, S_(" "), S_("*"), S_("/"), S_("**"), S_("//"), S_("/ *"), S_("* /"), S_("--"), S_("-- "), <<10>>, <<45, 45, 10>>, S_("/**/"), S_("/*/**/*/"), S_("/* -- */"), <<233>>,
                <<High + 255>>, <<0>>, S_("END"), S_("\""), S_("*/ /*"), S_("***"), <<42, 10, 47>>, <<42, 13, 47, 32>>, <<42, 11, 47, 42, 12, 47>>, <<47, 10, 42, 32>>, <<47, 13, 42>>, <<42, 9, 47, 233, 42, 133, 47>>, S_("/*/ */"), S_("/*** */"), S_(" */ -- /*"), <<13, 10, 12, 11>>, S_("- -"), <<8232, 42, 8232>>, S_("*/*/**") >>
Long == << << <<S_("--"), 1>>, <<S_("x"), 5000>>, <<<<10>>, 1>> >>, << <<S_("-- "), 1>>, <<S_("- "), 2100>>, <<S_(" --"), 1>> >>,
           << <<S_("/*"), 1>>, <<S_("* "), 2050>>, <<S_("*/"), 1>> >>, << <<S_("/*"), 300>>, <<S_("*/"), 300>> >>, << <<S_("/* "), 1500>>, <<S_(" */"), 1500>> >>,
           << <<<<32>>, 4095>> >>, << <<<<10>>, 4097>> >>, << <<<<13, 10>>, 2050>> >>, << <<S_("--"), 1>>, <<<<233>>, 3000>>, <<<<13>>, 1>> >>,
           << <<S_("---- "), 1000>> >>, << <<S_("/**/"), 1500>> >> >>
White == << <<32>>, <<9>>, <<10>>, <<13>>, <<11>>, <<12>>, <<13, 10>>, <<10, 13>>, <<32, 32, 32>>, <<9, 32, 10, 12>> >>

RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
\* the rules tell long repetitions from nothing as they tell three
RECURSIVE Flat(_)
Flat(u) == IF u = <<>> THEN <<>> ELSE Times(u[1][1], IF u[1][2] > 3 THEN 3 ELSE u[1][2]) \o Flat(Tail(u))
ReadAsNothing(cs) == LET r == LexAll(<<32>> \o cs \o <<32>>) IN r.toks = <<>> /\ r.err = <<>> /\ ~r.gray /\ r.m.m = "ready"

Line(b, t) == S_("--") \o b \o t
Block(b) == S_("/*") \o b \o S_("*/")
AllUnits == [i \in 1..Len(White) |-> U(White[i])]
            \o [k \in 1..(Len(LineBody) * Len(LineStop)) |-> U(Line(LineBody[1 + ((k - 1) \div Len(LineStop))], LineStop[1 + ((k - 1) % Len(LineStop))]))]
            \o [i \in 1..Len(BlockBody) |-> U(Block(BlockBody[i]))] \o Long
Closed(u) == LET r == LexAll(<<32>> \o Flat(u) \o <<97>>) IN r.toks = <<Item("id", "a")>> /\ r.err = <<>> /\ ~r.gray
ASSUME TLCSet(46, TLCEval(SelectSeq(AllUnits, LAMBDA u : ReadAsNothing(Flat(u)) /\ Closed(u))))
Units == TLCGet(46)
\* comments that the end of the text ends
Tails0 == << <<>>, S_("--"), S_("-- x"), S_("---"), S_("-- - "), S_("-- /*"), <<45, 45, 233>>, S_("--END") >>

Pool == [x \in {ReservedWords[i] : i \in 1..Len(ReservedWords)} |-> Codes(x)]
CodesOf(lexeme) == IF lexeme \in DOMAIN Pool THEN Pool[lexeme] ELSE Codes(lexeme)
Items(cs) == LexAll(cs).toks
\* g (flat) may stand between the items of a and those of b
Fits2(a, g, b) == LET r == LexAll(a \o g \o b) IN r.err = <<>> /\ ~r.gray /\ r.toks = Items(a) \o Items(b)
Space == U(<<32>>)
Place(a, u, b) == IF Fits2(a, Flat(u), b) THEN u
                  ELSE IF Fits2(a, <<32>> \o Flat(u), b) THEN Space \o u
                  ELSE Space \o u \o Space

Write(gaps) == CSVWrite("%1$s", <<ToJson([toks |-> out, gaps |-> gaps])>>, OutFile)
Text(i) == IF i \in 1..Len(out) THEN CodesOf(out[i]) ELSE <<>>

\* every unit at gap g, single spaces elsewhere
Each == LET cs == TLCEval([i \in 1..Len(out) |-> Text(i)])
            At2(i) == IF i \in 1..Len(out) THEN cs[i] ELSE <<>>
        IN \A g \in 0..Len(out) : \A q \in 1..Len(Units) :
             LET u == TLCEval(Place(At2(g), Units[q], At2(g + 1)))
             IN Write([i \in 1..(Len(out) + 1) |-> IF i = g + 1 THEN u ELSE IF i = 1 \/ i = Len(out) + 1 THEN <<>> ELSE Space])

\* whole layouts: nothing, one or several units in every gap
UnitsFor(k) == CASE k % 4 = 0 -> <<>>
                 [] k % 4 = 3 -> Pick(Units, Mix(k)) \o Pick(Units, Mix(k + 11)) \o (IF k % 3 = 0 THEN Pick(Units, Mix(k + 5)) ELSE <<>>)
                 [] OTHER     -> Pick(Units, Mix(k + 3))
RECURSIVE FlatText(_, _, _)
FlatText(cs, gaps, i) == Flat(gaps[i]) \o (IF i > Len(cs) THEN <<>> ELSE cs[i] \o FlatText(cs, gaps, i + 1))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Laid(k) ==
  LET cs == TLCEval([i \in 1..Len(out) |-> Text(i)])
      At2(i) == IF i \in 1..Len(out) THEN cs[i] ELSE <<>>
      gaps == TLCEval([i \in 1..(Len(out) + 1) |-> Place(At2(i - 1), UnitsFor(Mix(Mix(k) + 19 * i)), At2(i))])
      last == TLCEval(U(Pick(Tails0, Mix(k + 1))))
      all  == TLCEval([gaps EXCEPT ![Len(out) + 1] = @ \o (IF Fits2(At2(Len(out)), Flat(@ \o last), <<>>) THEN last ELSE <<>>)])
      r    == LexAll(FlatText(cs, all, 1))
  IN /\ Assert(r.err = <<>> /\ ~r.gray /\ r.toks = Concat([i \in 1..Len(out) |-> Items(cs[i])]), <<"layout changes items", all, out>>)
     /\ Write(all)
Mixed == \A m \in 1..Count : Laid(Mix(salt + 41 * m + 7 * Len(out)))

LayOut == /\ ~done /\ stk = <<>>
          /\ done' = TRUE
          /\ (IF Mode = "each" THEN Each ELSE Mixed) = TRUE
          /\ UNCHANGED <<stk, out, vs, fuel, salt>>
LNext == WriteItem \/ WriteLexeme \/ Reduce \/ PushConst \/ Expand \/ LayOut
LSpec == Init /\ [][LNext]_vars
=============================================================================
