------------------------------- MODULE Reader -------------------------------
(* Reading as it happens: a reader that delivers bytes, a decoder that makes
   characters of them, and the automaton that makes items of those.  Every way
   of cutting each text is explored; what is read does not depend on the cuts,
   and nothing is read after the reader has failed.                           *)
EXTENDS LexRules, CSV, Json

CONSTANTS MaxOps, Pads, Faults, OutFile
VARIABLES t, pad, pos, pend, lx, script, phase
vars == <<t, pad, pos, pend, lx, script, phase>>
High == 1114112

S(s) == Codes(s)
E(b) == High + b
Texts == << [cs |-> S("M DEFINITIONS ::= BEGIN END"), ok |-> TRUE],
            [cs |-> S("A DEFINITIONS::=BEGIN B::=CHOICE{a[0]C(1..2),...}b REAL::=-1.5E-3 END --") \o <<233>> \o S("--"), ok |-> TRUE],
            [cs |-> S("A DEFINITIONS::=BEGIN/*") \o <<233>> \o S("/*-*/*/B::=NULL --") \o <<8364, 13>> \o S("END/***/"), ok |-> TRUE],
            [cs |-> S("A DEFINITIONS::=BEGIN a INTEGER::=-12 END --x") \o <<8364>>, ok |-> TRUE],
            [cs |-> S("A DEFINITIONS::=BEGIN END --") \o <<E(226), E(130)>>, ok |-> TRUE],
            [cs |-> <<10>> \o S("A DEFINITIONS::=BEGIN/*") \o <<128578, E(255), E(240), E(159)>> \o S("*/END "), ok |-> TRUE],
            [cs |-> S("A DEFINITIONS::=BEGIN END ") \o <<128578>>, ok |-> FALSE],
            [cs |-> S("M{}::=[[a..b...c]]:12E-3--") \o <<10>> \o S("-- --") \o <<45, 0>>, ok |-> FALSE],
            [cs |-> S("Ab-c DEFINITIONS::=BEGIN D-e--f::=NULL END"), ok |-> FALSE],
            [cs |-> S("A DEFINITIONS::=BEGIN B-c::=INTEGER de- INTEGER::=1 END"), ok |-> FALSE],
            [cs |-> S("A DEFINITIONS::=BEGIN/* ") \o <<8364>>, ok |-> FALSE],
            [cs |-> S("A DEFINITIONS::=BEGIN B::=INTEGER C::=9999999999999999999 END"), ok |-> FALSE] >>

\* UTF-8
Utf8(c) == IF c >= High THEN <<c - High>>
           ELSE IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode(cs) == FoldLeft(LAMBDA acc, c : acc \o Utf8(c), <<>>, cs)
Cont(b) == b \in 128..191
Len8(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 1
Second(b, c) == CASE b = 224 -> c \in 160..191 [] b = 237 -> c \in 128..159 [] b = 240 -> c \in 144..191 [] b = 244 -> c \in 128..143 [] OTHER -> Cont(c)
\* bs is the beginning of a character, possibly all of it
MayStart(bs) == /\ Len(bs) <= Len8(bs[1])
                /\ Len(bs) < 2 \/ (Len8(bs[1]) > 1 /\ Second(bs[1], bs[2]))
                /\ \A i \in 3..Len(bs) : Cont(bs[i])
                /\ bs[1] < 128 \/ Len8(bs[1]) > 1
Value8(bs) == CASE Len(bs) = 1 -> bs[1]
                [] Len(bs) = 2 -> (bs[1] - 192) * 64 + (bs[2] - 128)
                [] Len(bs) = 3 -> (bs[1] - 224) * 4096 + (bs[2] - 128) * 64 + (bs[3] - 128)
                [] OTHER       -> (bs[1] - 240) * 262144 + (bs[2] - 128) * 4096 + (bs[3] - 128) * 64 + (bs[4] - 128)
\* decoder: what can be decoded of bs if more may follow (final: if nothing follows)
RECURSIVE Decode(_, _, _)
Decode(bs, final, acc) ==
  IF bs = <<>> THEN [cs |-> acc, rest |-> <<>>]
  ELSE LET lens == {n \in 1..Len(bs) : n <= 4 /\ MayStart(SubSeq(bs, 1, n))}
           n == IF lens = {} THEN 0 ELSE MaxOf(lens)
       IN IF n > 0 /\ n = Len8(bs[1]) THEN Decode(SubSeq(bs, n + 1, Len(bs)), final, Append(acc, Value8(SubSeq(bs, 1, n))))
          ELSE IF n = Len(bs) /\ n > 0 /\ ~final THEN [cs |-> acc, rest |-> bs]
          ELSE Decode(Tail(bs), final, Append(acc, High + bs[1]))

ASSUME \A i \in 1..Len(Texts) : Decode(Encode(Texts[i].cs), TRUE, <<>>).cs = Texts[i].cs
TextBytes == TLCEval([i \in 1..Len(Texts) |-> Encode(Texts[i].cs)])
Whole == TLCEval([i \in 1..Len(Texts) |-> LexAll(Texts[i].cs)])
ASSUME \A i \in 1..Len(Texts) : Texts[i].ok => Whole[i].err = <<>> /\ ~Whole[i].gray
ASSUME TLCSet(47, TextBytes) /\ TLCSet(48, Whole)
Data == TLCGet(47)[t]
Total == Len(Data)

\* what the reader has handed over so far
Feed(bs, final) == LET d == Decode(pend \o bs, final, <<>>)
                   IN [pend |-> d.rest, lx |-> FoldLeft(Step, lx, d.cs)]

Init == /\ t \in 1..Len(Texts) /\ pad \in Pads
        /\ pos = 0 /\ pend = <<>> /\ lx = LexStart /\ script = <<>> /\ phase = "read"
Piece(n) == SubSeq(Data, pos + 1, pos + n)
Room == phase = "read" /\ Len(script) < MaxOps
Deliver == /\ Room
           /\ \E n \in 1..(Total - pos) :
                LET r == Feed(Piece(n), FALSE) IN
                /\ pos' = pos + n /\ pend' = r.pend /\ lx' = r.lx
                /\ script' = Append(script, <<IF pos = 0 THEN n + pad ELSE n, 1, "data">>)
           /\ UNCHANGED <<t, pad, phase>>
Bytewise == /\ Room /\ pos = 0
            /\ \E k \in 1..4 :
                 LET n == k * (Total \div k)  r == Feed(Piece(n), FALSE) IN
                 /\ pos' = n /\ pend' = r.pend /\ lx' = r.lx
                 /\ script' = script \o (IF pad = 0 THEN <<>> ELSE <<<<pad, 1, "data">>>>) \o <<<<k, Total \div k, "data">>>>
            /\ UNCHANGED <<t, pad, phase>>
Empty == /\ Room /\ pos > 0 /\ pos < Total
         /\ script' = Append(script, <<0, 2, "data">>)
         /\ UNCHANGED <<t, pad, pos, pend, lx, phase>>
EndOfData(k) == /\ phase = "read"
                /\ LET r == Feed(Piece(Total - pos), TRUE) IN pend' = <<>> /\ lx' = Step(r.lx, EndOfText)
                /\ pos' = Total /\ phase' = "ended"
                /\ script' = Append(script, <<IF pos = 0 THEN Total + pad ELSE Total - pos, 1, k>>)
                /\ UNCHANGED <<t, pad>>
Fail2(k) == /\ phase = "read" /\ Faults /\ (IF pos = 0 THEN pad = 0 ELSE TRUE)
            /\ \E n \in 0..(Total - pos) :
                 /\ LET r == Feed(Piece(n), FALSE) IN pend' = r.pend /\ lx' = r.lx
                 /\ pos' = pos + n /\ script' = Append(script, <<n, 1, k, Failures[1 + ((pos + n + Len(script) + t) % Len(Failures))]>>)
            /\ phase' = "failed"
            /\ UNCHANGED <<t, pad>>
Outcome == IF phase = "ended" THEN "same" ELSE IF Texts[t].ok THEN "fault" ELSE "error"
Emit2 == /\ phase \in {"ended", "failed"}
         /\ CSVWrite("%1$s", <<ToJson([codes |-> Texts[t].cs, pad |-> pad, script |-> script, verdict |-> Outcome])>>, OutFile)
         /\ phase' = phase \o ", written"
         /\ UNCHANGED <<t, pad, pos, pend, lx, script>>
\* a source that can be opened but not read, or not even opened
BadSource == /\ phase = "read" /\ script = <<>> /\ t = 1 /\ Faults
             /\ \E k \in {"directory", "missing"} : CSVWrite("%1$s", <<ToJson([source |-> k, verdict |-> "fault"])>>, OutFile)
             /\ phase' = "no source"
             /\ UNCHANGED <<t, pad, pos, pend, lx, script>>
Next == BadSource \/ Deliver \/ Bytewise \/ Empty \/ EndOfData("eof") \/ EndOfData("data") \/ Fail2("fault") \/ Fail2("fault-then-on") \/ Emit2
Spec == Init /\ [][Next]_vars

\* the result is that of the whole text, however it was cut
CutsDoNotMatter == phase = "ended" => lx = TLCGet(48)[t]
\* what was read before a failure is a beginning of what the whole text divides into, except that an item may not be complete
PrefixOnly == LET w == TLCGet(48)[t].toks IN
              /\ Len(lx.toks) <= Len(w)
              /\ \A i \in 1..Len(lx.toks) : lx.toks[i] = w[i]
Bounded == pos <= Total /\ Len(pend) <= 3
=============================================================================
