-------------------------------- MODULE Feed --------------------------------
(* A laid-out text and the reader that delivers it.  The reader may return any
   number of bytes per call, none at all now and then, the end of the text
   together with the last bytes or after them, or an error at any point, after
   which it may or may not go on.  What was parsed must not depend on any of
   that: the result is the one of the whole text, or, if the reader returned an
   error before the end of the text, an error that says so.                    *)
EXTENDS Layout

CONSTANTS Spoil,   \* percentage of texts changed so that most are not modules
          Faults,  \* whether the reader may fail
          DocFile, \* JSON: documents to deliver instead of derived texts, each a sequence of characters; "" for none
          Docs     \* how many of them

VARIABLES gaps, total, pos, script, phase, verdict, round
fvars == <<gaps, total, pos, script, phase, verdict, round>>

RECURSIVE WidthCs(_, _), UnitBytes(_), SumTo(_, _)
Width(c) == IF c >= High \/ c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
WidthCs(cs, i) == IF i = 0 THEN 0 ELSE Width(cs[i]) + WidthCs(cs, i - 1)
UnitBytes(u) == IF u = <<>> THEN 0 ELSE WidthCs(u[1][1], Len(u[1][1])) * u[1][2] + UnitBytes(Tail(u))
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)

\* a change that rarely leaves a module
Spoiled(ts, k) == LET i == 1 + (Mix(k) % Len(ts)) w == Pick(ReservedWords \o Symbols \o <<"foo", "Foo", "7", "a--b", "#">>, Mix(k + 9))
                  IN CASE k % 4 = 0 -> SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
                       [] k % 4 = 1 -> SubSeq(ts, 1, i - 1) \o <<w>> \o SubSeq(ts, i, Len(ts))
                       [] k % 4 = 2 -> SubSeq(ts, 1, i)
                       [] OTHER     -> SubSeq(ts, 1, i - 1) \o <<w>> \o SubSeq(ts, i + 1, Len(ts))
Pads == << <<>>, <<>>, << <<<<32>>, 4080>> >>, << <<<<32>>, 4090>> >>, << <<<<10>>, 4060>> >>, << <<S_("-- "), 1>>, <<<<233>>, 2030>>, <<<<10>>, 1>> >>, << <<<<32>>, 8170>> >>,
          << <<<<10>>, 66000>> >>, << <<S_("/*"), 1>>, <<<<233, 10>>, 400000>>, <<S_("*/"), 1>> >> >>
LayIt(k) ==
  LET ts == TLCEval(IF Mix(k) % 100 < Spoil THEN Spoiled(out, Mix(k + 2)) ELSE out)
      cs == TLCEval([i \in 1..Len(ts) |-> CodesOf(ts[i])])
      At2(i) == IF i \in 1..Len(ts) THEN cs[i] ELSE <<>>
      Gap(i) == Place(At2(i - 1), IF k % 3 = 0 THEN Space ELSE UnitsFor(Mix(Mix(k) + 19 * i)), At2(i))
      g0 == TLCEval([i \in 1..(Len(ts) + 1) |-> Gap(i)])
  IN [toks |-> ts, gaps |-> TLCEval([g0 EXCEPT ![1] = Pick(Pads, Mix(k + 6)) \o @])]
Bytes(x) == SumTo([i \in 1..Len(x.gaps) |-> UnitBytes(x.gaps[i])], Len(x.gaps)) + SumTo([i \in 1..Len(x.toks) |-> Len(x.toks[i])], Len(x.toks))

DocText == IF DocFile = "" THEN <<>> ELSE JsonDeserialize(DocFile)
ASSUME TLCSet(55, TLCEval([d \in 1..Docs |-> FoldLeft(LAMBDA acc, c : acc + Width(c), 0, DocText[d])]))
\* a document: salt says which
DocInit == /\ \E d \in 1..Docs : salt = d /\ total = TLCGet(55)[d]
           /\ stk = <<>> /\ out = <<>> /\ vs = <<>> /\ fuel = 0 /\ done = TRUE
           /\ gaps = <<>> /\ pos = 0 /\ script = <<>> /\ phase = "read" /\ verdict = "module" /\ round = 1
TextInit == Init /\ gaps = <<>> /\ total = 0 /\ pos = 0 /\ script = <<>> /\ phase = "text" /\ verdict = "none" /\ round = 1
FInit == IF DocFile = "" THEN TextInit ELSE DocInit
Derive == phase = "text" /\ (WriteItem \/ WriteLexeme \/ Reduce \/ PushConst \/ Expand) /\ UNCHANGED fvars
Lay == /\ phase = "text" /\ ~done /\ stk = <<>>
       /\ LET x == TLCEval(LayIt(Mix(salt + 7 * Len(out)))) IN
          /\ out' = x.toks /\ gaps' = x.gaps /\ total' = TLCEval(Bytes(x)) /\ verdict' = IF x.toks = out THEN "module" ELSE "unknown"
       /\ done' = TRUE /\ phase' = "read" /\ vs' = <<>>
       /\ UNCHANGED <<stk, fuel, salt, pos, script, round>>

Reading == phase = "read"
Sizes == {1, 2, 3, 5, 17, 64, 511, 4095, 4096, 4097, 20000}
Op(n, times, k) == <<n, times, k>>
CONSTANT MaxOps
\* times reads of n bytes each
Deliver == /\ Reading /\ Len(script) < MaxOps
           /\ \E n \in Sizes, times \in {1, 2, 7, 40, 700} :
                /\ pos + n * times <= total
                /\ pos' = pos + n * times
                /\ script' = Append(script, Op(n, times, "data"))
           /\ UNCHANGED <<gaps, total, phase, verdict, round>>
Empty == /\ Reading /\ Len(script) < MaxOps /\ \E times \in {1, 3} : script' = Append(script, Op(0, times, "data"))
         /\ (IF script = <<>> THEN TRUE ELSE script[Len(script)][1] # 0)
         /\ UNCHANGED <<gaps, total, pos, phase, verdict, round>>
Rest == total - pos
\* the rest of the text at once, the end with it or afterwards
Finish2 == /\ Reading
           /\ \E k \in {"data", "eof"} : script' = script \o <<Op(Rest, 1, k)>>
           /\ phase' = "done" /\ pos' = total
           /\ UNCHANGED <<gaps, total, verdict, round>>
\* an error, with or without bytes before it, before or at the end of the text; permanent or not
Fault == /\ Reading /\ Faults
         /\ \E k \in {"fault", "fault-then-on"}, n \in {0, 1, 3, 50, Rest, 1 + (Rest \div 2), 1 + (Rest \div 7)} :
              /\ n <= Rest
              /\ script' = Append(script, <<n, 1, k, Failures[1 + ((pos + n + Len(script)) % Len(Failures))]>>)
         /\ phase' = "done" /\ UNCHANGED <<gaps, total, pos, verdict, round>>
Failed == \E i \in 1..Len(script) : script[i][3] \in {"fault", "fault-then-on"}
Outcome == IF ~Failed THEN "same" ELSE IF verdict = "module" THEN "fault" ELSE "error"
Write2 == /\ phase = "done"
          /\ CSVWrite("%1$s", <<ToJson([toks |-> out, gaps |-> gaps, doc |-> IF DocFile = "" THEN 0 ELSE salt, script |-> script, verdict |-> Outcome, bytes |-> total])>>, OutFile)
          /\ IF round < Count THEN phase' = "read" /\ round' = round + 1 /\ pos' = 0 /\ script' = <<>>
             ELSE phase' = "written" /\ UNCHANGED <<round, pos, script>>
          /\ UNCHANGED <<gaps, total, verdict>>
FNext == \/ Derive \/ Lay
         \/ (Deliver \/ Empty \/ Finish2 \/ Fault \/ Write2) /\ UNCHANGED vars
FSpec == FInit /\ [][FNext]_<<vars, fvars>>

\* whatever the reader does, no byte is delivered twice or lost, and only a fault changes the outcome
NothingLost == pos <= total
=============================================================================
