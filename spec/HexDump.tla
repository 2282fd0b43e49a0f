------------------------------ MODULE HexDump ------------------------------
(* Hex dumps.  A dump is written line by line, column by column, while the
   bytes it stands for are collected; the same is said again declaratively, by
   splitting the finished text, and TLC checks that the two agree.  Texts are
   sequences of character codes.                                              *)
EXTENDS Integers, Sequences, FiniteSets, CSV, Json, TLC

CONSTANTS MaxCols, MaxLines,   \* columns and lines of a dump
          Bytes,               \* byte values that occur
          Styles,              \* "lower", "upper", "short"
          Gaps,                \* numbers of spaces between columns
          Odd,                 \* TRUE: columns that are no byte occur, too
          Repeats,             \* how often the whole dump is repeated
          Wides,               \* how often the columns of a dump of one line are repeated
          Salts,               \* {0}: every choice; else one choice at every step, seeded
          OutFile

VARIABLES txt, bytes, bad, cols, lines, ph, salt
vars == <<txt, bytes, bad, cols, lines, ph, salt>>

HexDigit(d, upper) == IF d < 10 THEN 48 + d ELSE (IF upper THEN 55 ELSE 87) + d
Column(b, style) == CASE style = "lower" -> <<HexDigit(b \div 16, FALSE), HexDigit(b % 16, FALSE)>>
                      [] style = "upper" -> <<HexDigit(b \div 16, TRUE), HexDigit(b % 16, TRUE)>>
                      [] style = "mixed" -> <<HexDigit(b \div 16, TRUE), HexDigit(b % 16, FALSE)>>
                      [] OTHER -> IF b < 16 THEN <<HexDigit(b, FALSE)>> ELSE <<HexDigit(b \div 16, FALSE), HexDigit(b % 16, FALSE)>>
\* 0000 00a0 0 : offsets, of any width; also what looks like no number
Offsets == << <<48, 48, 48, 48>>, <<48, 48, 97, 48>>, <<48>>, <<49, 50, 51, 52, 53, 54, 55, 56>>, <<48, 48, 49, 48, 58>>, <<102, 102>> >>
\* 100 1ff -1 +1 g0 0x1 1_0 - . ZZ fff -ff ffffffffffffffffff 0g e-acute 1.  -0
OddColumns == << <<49, 48, 48>>, <<49, 102, 102>>, <<45, 49>>, <<43, 49>>, <<103, 48>>, <<48, 120, 49>>, <<49, 95, 48>>, <<45>>, <<46>>, <<90, 90>>, <<102, 102, 102>>,
                 <<45, 102, 102>>, <<102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102>>, <<48, 103>>, <<233>>, <<49, 46>>, <<45, 48>>,
                 <<45, 49, 48, 48>>, <<48, 111, 49>>, <<49, 104>>, <<124, 97, 124>>, <<43>>, <<49, 48, 48, 48>> >>
Spaces(n) == [i \in 1..n |-> 32]

\* one of a set, or all of it
Mix(k) == (k * 7919 + 104729) % 65537
RECURSIVE Nth(_, _)
Nth(S, k) == LET x == CHOOSE x \in S : \A y \in S : x <= y IN IF k = 0 THEN x ELSE Nth(S \ {x}, k - 1)
OneOf(S, k) == IF salt = 0 THEN S ELSE IF Cardinality(S) = 256 THEN {Mix(Mix(salt + k) + 31 * Len(txt)) % 256} ELSE {Nth(S, Mix(Mix(salt + k) + 31 * Len(txt) + 7 * lines) % Cardinality(S))}
StyleNo == <<"lower", "upper", "short", "mixed">>
StylesOf(k) == IF salt = 0 THEN Styles ELSE {StyleNo[1 + (Mix(Mix(salt + k) + 13 * Len(txt)) % 4)]} \cap Styles

Init == txt = <<>> /\ bytes = <<>> /\ bad = FALSE /\ cols = 0 /\ lines = 0 /\ ph = "line" /\ salt \in Salts
Offset == /\ ph = "line" /\ lines < MaxLines
          /\ \E i \in OneOf(1..Len(Offsets), 6) : txt' = txt \o Offsets[i]
          /\ ph' = "cols" /\ UNCHANGED <<bytes, bad, cols, lines, salt>>
Byte == /\ ph = "cols" /\ cols < MaxCols
        /\ \E b \in OneOf(Bytes, 1), s \in StylesOf(2), g \in OneOf(Gaps, 3) : txt' = txt \o Spaces(g) \o Column(b, s) /\ bytes' = Append(bytes, b)
        /\ cols' = cols + 1 /\ UNCHANGED <<bad, lines, ph, salt>>
NoByte == /\ ph = "cols" /\ cols < MaxCols /\ Odd
          /\ \E i \in OneOf(1..Len(OddColumns), 4), g \in OneOf(Gaps, 3) : txt' = txt \o Spaces(g) \o OddColumns[i]
          /\ bad' = TRUE /\ cols' = cols + 1 /\ UNCHANGED <<bytes, lines, ph, salt>>
Trail == /\ ph = "cols" /\ \E g \in OneOf(Gaps, 5) : txt' = txt \o Spaces(g)
         /\ ph' = "end" /\ UNCHANGED <<bytes, bad, cols, lines, salt>>
Break == /\ ph \in {"cols", "end"} /\ lines < MaxLines
         /\ txt' = Append(txt, 10) /\ ph' = "line" /\ lines' = lines + 1 /\ UNCHANGED <<bytes, bad, cols, salt>>
Empty == /\ ph = "line" /\ lines < MaxLines
         /\ txt' = Append(txt, 10) /\ lines' = lines + 1 /\ UNCHANGED <<bytes, bad, cols, ph, salt>>

\* the text, split
RECURSIVE Split(_, _, _, _)
Split(s, sep, i, cur) == IF i > Len(s) THEN <<cur>>
                         ELSE IF s[i] = sep THEN <<cur>> \o Split(s, sep, i + 1, <<>>) ELSE Split(s, sep, i + 1, Append(cur, s[i]))
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsByte(col) == Len(col) \in {1, 2} /\ \A i \in 1..Len(col) : DigitVal(col[i]) >= 0
ByteVal(col) == IF Len(col) = 1 THEN DigitVal(col[1]) ELSE 16 * DigitVal(col[1]) + DigitVal(col[2])
NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
RECURSIVE OfLines(_)
OfLines(ls) == IF ls = <<>> THEN <<>>
               ELSE LET cs == NonEmpty(Split(ls[1], 32, 1, <<>>))
                        data == SelectSeq(IF cs = <<>> THEN <<>> ELSE Tail(cs), LAMBDA c : IsByte(c))
                    IN [i \in 1..Len(data) |-> ByteVal(data[i])] \o OfLines(Tail(ls))
Decoded(s) == OfLines(Split(s, 10, 1, <<>>))
DeclAgrees == Decoded(txt) = bytes

Write(rep) == CSVWrite("%1$s", <<ToJson([codes |-> txt, bytes |-> bytes, bad |-> bad, rep |-> rep, wide |-> 0, head |-> 0])>>, OutFile)
\* a line of many columns: its offset, the columns w times, and the whole twice
FirstSpace == CHOOSE i \in 1..Len(txt) : txt[i] = 32 /\ \A j \in 1..(i - 1) : txt[j] # 32
OneLine == lines = 0 /\ ph = "cols" /\ cols > 0 /\ ~bad
WriteWide(w) == CSVWrite("%1$s", <<ToJson([codes |-> txt, bytes |-> bytes, bad |-> FALSE, rep |-> 1, wide |-> w, head |-> FirstSpace - 1])>>, OutFile)
\* repeating the columns repeats the bytes
WideAgrees == OneLine => Decoded(txt \o SubSeq(txt, FirstSpace, Len(txt))) = bytes \o bytes
Finish == /\ ph # "done" /\ (ph \in {"line", "end", "cols"})
          /\ Write(1)
          /\ IF OneLine THEN (\A w \in Wides : WriteWide(w)) = TRUE ELSE TRUE
          /\ IF ph = "line" THEN (\A r \in Repeats : Write(r)) = TRUE ELSE TRUE
          /\ ph' = "done" /\ UNCHANGED <<txt, bytes, bad, cols, lines, salt>>
Next == Offset \/ Byte \/ NoByte \/ Trail \/ Break \/ Empty \/ Finish
Spec == Init /\ [][Next]_vars
\* long dumps, for simulation: only at the end
Long == Offset \/ Byte \/ (Mix(Mix(salt + 8) + 17 * Len(txt)) % 5 = 0 /\ NoByte) \/ (Mix(Mix(salt + 9) + 17 * Len(txt)) % 9 = 0 /\ (Trail \/ Break)) \/ (ph = "end" /\ Break) \/ (cols = MaxCols /\ Break) \/ Empty \/ (lines = MaxLines /\ Finish)
LongSpec == Init /\ [][Long]_vars
=============================================================================
