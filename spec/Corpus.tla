------------------------------- MODULE Corpus -------------------------------
(* Texts read by the specification: the readings of the claimed notation and
   the configurations of the acceptor advance together, item by item, until the
   text ends or nothing can continue.                                         *)
EXTENDS Texts

CONSTANTS OutFile

VARIABLES text,    \* id: which; toks, keys: its items and their kinds; tl: their lines, and that of the end; cs: characters, or gaps; err, gray: where it is malformed, not claimed
          pos, conf, readings, strict, verdict
vars == <<text, pos, conf, readings, strict, verdict>>

Init == /\ \E k \in TextLo..TextHi : \E d \in (IF Source = "whole" THEN Docs ELSE {0}) : text = TLCEval([id |-> <<k, d>>] @@ TextFor(k, d))
        /\ pos = 1 /\ conf = Initial /\ readings = MInitial /\ strict = 0 /\ verdict = "reading"

ReadItem == /\ verdict = "reading" /\ pos <= Len(text.toks) /\ conf # {} /\ text.keys[pos] # "bad"
            /\ LET D == Advance(conf, text.keys[pos]) IN
               /\ conf' = D
               /\ strict' = IF strict # 0 THEN strict ELSE IF Strict(D) = {} THEN pos ELSE 0
            /\ readings' = MAdvance(readings, text.keys[pos], IF text.cs = <<>> THEN ItemValue(text.toks[pos], text.keys[pos]) ELSE text.toks[pos])
            /\ pos' = pos + 1
            /\ UNCHANGED <<text, verdict>>
Report(v, lines, ast) ==
  IF text.gray \/ v = "gray" THEN TRUE
  ELSE CSVWrite("%1$s", <<IF text.cs = <<>> THEN ToJson([toks |-> text.toks, gaps |-> text.gaps, far |-> text.far, verdict |-> v, lines |-> lines, ast |-> ast])
                                       ELSE ToJson([codes |-> text.cs, verdict |-> v, lines |-> lines, ast |-> ast])>>, OutFile)
LinesOf(from, to) == TLCEval([j \in 1..(to - from + 1) |-> text.tl[from + j - 1]])
\* every line a malformed item that ends the items may be reported on
ErrLines == IF text.err = <<>> THEN <<>> ELSE text.err[1]
From(i) == IF strict = 0 THEN i ELSE strict
GoneWrong == /\ verdict = "reading" /\ (conf = {} \/ (pos <= Len(text.toks) /\ text.keys[pos] = "bad"))
             /\ verdict' = "reject"
             /\ Report("reject", IF conf = {} THEN LinesOf(From(pos - 1), pos - 1) ELSE LinesOf(From(pos), pos), none)
             /\ UNCHANGED <<text, pos, conf, readings, strict>>
Malformed == /\ verdict = "reading" /\ conf # {} /\ pos > Len(text.toks) /\ text.err # <<>>
             /\ verdict' = "reject"
             /\ Report("reject", (IF strict = 0 THEN <<>> ELSE LinesOf(strict, Len(text.toks))) \o ErrLines, none)
             /\ UNCHANGED <<text, pos, conf, readings, strict>>
Ended == /\ verdict = "reading" /\ conf # {} /\ pos > Len(text.toks) /\ text.err = <<>>
         /\ LET m == TLCEval(MFinal(readings, 1))
                v == IF \E c \in Strict(conf) : MayEnd(c) THEN "accept" ELSE IF \E c \in conf : MayEnd(c) THEN "gray" ELSE "reject"
            IN /\ verdict' = v
               /\ Report(v, IF v = "reject" THEN LinesOf(From(pos), pos) ELSE <<>>, IF v = "accept" THEN m[1][1] ELSE none)
         /\ UNCHANGED <<text, pos, conf, readings, strict>>
\* how a text is read follows from it: states are told apart by text and place
View == <<text.id, pos, verdict>>
Next == ReadItem \/ GoneWrong \/ Malformed \/ Ended
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the two ways of reading agree on what can continue, and a module has one meaning
Agree == (Strict(conf) = {}) <=> (readings = <<>>)
OneMeaning == verdict = "accept" => LET m == MFinal(readings, 1) IN Len(m) = 1 /\ Len(m[1]) = 1
Judged == <>(verdict # "reading")
=============================================================================
