------------------------------ MODULE LexRules ------------------------------
(* The lexical rules: one step of the automaton that divides text into items
   (Step), and the declarative reading of the same rules (LexDecl).  Lexer.tla
   checks that they agree; Layout, Reader and Recognizer reuse them.

   Characters are code points; 1114112 + b stands for the byte b that is not
   part of valid UTF-8.                                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Lexemes

\* ------------------------------------------------------------ characters
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsDigit(c) == c \in 48..57
IsNewline(c) == c \in 10..13
IsSpace(c) == c = 32 \/ c \in 9..13
IsWordChar(c) == IsUpper(c) \/ IsLower(c) \/ IsDigit(c) \/ c = 45
\* characters beyond ASCII that some would call letters or digits: not claimed outside comments
IsForeignLetter(c) == c \in {233, 199, 955, 1046, 1635, 20013, 119808}

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(c) == SubSeq(Ascii, c - 31, c - 31)
RECURSIVE Str(_)
Str(cs) == IF cs = <<>> THEN "" ELSE Chr(Head(cs)) \o Str(Tail(cs))

ReservedSet == {ReservedWords[i] : i \in 1..Len(ReservedWords)}
SingleSymbols == {123, 125, 60, 62, 44, 46, 40, 41, 91, 93, 45, 58, 61, 34, 39, 59, 64, 124, 33, 94}

Item(k, v) == [k |-> k, v |-> v]
SymItem(s) == Item("sym", s)

\* numbers as digit strings; the largest an int holds
MaxInt == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF x = <<>> THEN FALSE
                 ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE LexLess(Tail(x), Tail(y))
Digits(cs) == StripLead([i \in 1..Len(cs) |-> cs[i] - 48])
FitsInt(cs) == LET d == Digits(cs) IN Len(d) < 19 \/ (Len(d) = 19 /\ ~LexLess(MaxInt, d))
NumText(cs) == LET d == Digits(cs) IN IF d = <<>> THEN "0" ELSE DigitsStr(d)

WordItem(cs) == LET s == Str(cs) IN
  IF IsUpper(cs[1]) THEN (IF s \in ReservedSet THEN Item("res", s) ELSE Item("tref", s)) ELSE Item("id", s)

----------------------------------------------------------------------------
(* One step of the automaton as a function of a record
     [m: mode, toks, tl: their lines, line, err, gray]                                       *)
Ready(num) == [m |-> "ready", num |-> num]
EndOfText == -1

St(m, q) == [q EXCEPT !.m = m]
Emit(q, items, m) == [q EXCEPT !.toks = @ \o items, !.tl = @ \o [i \in 1..Len(items) |-> q.line + 1], !.m = m]
Fail(q, lines) == [q EXCEPT !.err = <<lines>>, !.m = [m |-> "dead"]]
Gray(q) == [q EXCEPT !.gray = TRUE, !.m = [m |-> "dead"]]

RECURSIVE Step(_, _)
Step(q0, c) ==
  LET m == q0.m
      q == q0
      here == q.line + 1
      NL(r) == IF IsNewline(c) THEN [r EXCEPT !.line = @ + 1] ELSE r
      Again(items) == Step([Emit(q, items, Ready(FALSE)) EXCEPT !.m = Ready(FALSE)], c)
  IN
  CASE m.m = "dead" -> q
    [] m.m = "ready" ->
         IF c = EndOfText THEN q
         ELSE IF IsSpace(c) THEN NL(St(Ready(FALSE), q))
         ELSE IF IsUpper(c) \/ IsLower(c) THEN
              IF m.num THEN (IF c \in {69, 101} THEN Emit(q, <<Item("exp", "e")>>, [m |-> "exp"]) ELSE Gray(q))
              ELSE St([m |-> "word", w |-> <<c>>], q)
         ELSE IF IsDigit(c) THEN St([m |-> "num", d |-> <<c>>], q)
         ELSE IF c = 45 THEN St([m |-> "minus"], q)
         ELSE IF c = 47 THEN St([m |-> "slash"], q)
         ELSE IF c = 58 THEN St([m |-> "colon1"], q)
         ELSE IF c = 46 THEN St([m |-> "dot1"], q)
         ELSE IF c = 91 THEN St([m |-> "lsq"], q)
         ELSE IF c = 93 THEN St([m |-> "rsq"], q)
         ELSE IF c \in SingleSymbols THEN Emit(q, <<SymItem(Chr(c))>>, Ready(FALSE))
         ELSE IF IsForeignLetter(c) THEN Gray(q)
         ELSE Fail(q, <<here>>)
    [] m.m = "exp" ->     \* e or E after a number: an exponent mark if a number follows
         IF c = EndOfText THEN Gray(q)
         ELSE IF IsDigit(c) \/ c = 45 THEN Again(<<>>)
         ELSE Gray(q)
    [] m.m = "word" ->
         IF c # EndOfText /\ IsWordChar(c) THEN
              IF c = 45 /\ m.w[Len(m.w)] = 45 THEN Fail(q, <<here>>)
              ELSE St([m |-> "word", w |-> Append(m.w, c)], q)
         ELSE IF c # EndOfText /\ IsForeignLetter(c) THEN Gray(q)
         ELSE IF m.w[Len(m.w)] = 45 THEN Fail(q, <<here>>)
         ELSE Again(<<WordItem(m.w)>>)
    [] m.m = "num" ->
         IF c # EndOfText /\ IsDigit(c) THEN St([m |-> "num", d |-> Append(m.d, c)], q)
         ELSE IF c # EndOfText /\ IsForeignLetter(c) THEN Gray(q)
         ELSE IF ~FitsInt(m.d) THEN Fail(q, <<here>>)
         ELSE Step(Emit(q, <<Item("num", NumText(m.d))>>, Ready(TRUE)), c)
    [] m.m = "minus" ->
         IF c = 45 THEN St([m |-> "line", h |-> FALSE], q) ELSE Again(<<SymItem("-")>>)
    [] m.m = "line" ->    \* until -- or the end of the line
         IF c = EndOfText THEN St(Ready(FALSE), q)
         ELSE IF IsNewline(c) THEN NL(St(Ready(FALSE), q))
         ELSE IF c = 45 THEN (IF m.h THEN St(Ready(FALSE), q) ELSE St([m |-> "line", h |-> TRUE], q))
         ELSE St([m |-> "line", h |-> FALSE], q)
    [] m.m = "slash" ->
         IF c = 42 THEN St([m |-> "block", depth |-> 1, last |-> 0, from |-> here], q) ELSE Fail(q, <<here>>)
    [] m.m = "block" ->   \* last: the character that may start an opening or closing mark
         IF c = EndOfText THEN Fail(q, <<m.from, here>>)
         ELSE IF c = 42 /\ m.last = 47 THEN St([m EXCEPT !.depth = @ + 1, !.last = 0], q)
         ELSE IF c = 47 /\ m.last = 42 THEN
              (IF m.depth = 1 THEN St(Ready(FALSE), q) ELSE St([m EXCEPT !.depth = @ - 1, !.last = 0], q))
         ELSE NL(St([m EXCEPT !.last = IF c \in {42, 47} THEN c ELSE 0], q))
    [] m.m = "colon1" ->
         IF c = 58 THEN St([m |-> "colon2"], q) ELSE Again(<<SymItem(":")>>)
    [] m.m = "colon2" ->
         IF c = 61 THEN Emit(q, <<SymItem("::=")>>, Ready(FALSE))
         ELSE IF c = 58 THEN Emit(q, <<SymItem(":")>>, m)
         ELSE Again(<<SymItem(":"), SymItem(":")>>)
    [] m.m = "dot1" ->
         IF c = 46 THEN St([m |-> "dot2"], q) ELSE Again(<<SymItem(".")>>)
    [] m.m = "dot2" ->
         IF c = 46 THEN Emit(q, <<SymItem("...")>>, Ready(FALSE)) ELSE Again(<<SymItem("..")>>)
    [] m.m = "lsq" ->
         IF c = 91 THEN Emit(q, <<SymItem("[[")>>, Ready(FALSE)) ELSE Again(<<SymItem("[")>>)
    [] m.m = "rsq" ->
         IF c = 93 THEN Emit(q, <<SymItem("]]")>>, Ready(FALSE)) ELSE Again(<<SymItem("]")>>)

LexStart == [m |-> Ready(FALSE), toks |-> <<>>, tl |-> <<>>, line |-> 0, err |-> <<>>, gray |-> FALSE]
\* what a whole text is divided into
LexAll(cs) == Step(FoldLeft(Step, LexStart, cs), EndOfText)

----------------------------------------------------------------------------
(* The declarative reading, from the rules: at each position take the longest
   comment, white space or item.                                             *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE EndOfText
Newlines(t, i, j) == Cardinality({k \in i..j : IsNewline(t[k])})

\* end of the word, number starting at i
WordEnd(t, i) == MaxOf({j \in i..Len(t) : \A k \in i..j : IsWordChar(t[k])})
NumEnd(t, i)  == MaxOf({j \in i..Len(t) : \A k \in i..j : IsDigit(t[k])})
\* first position after the line comment whose text starts at i
LineEnd(t, i) == LET stops == {j \in i..Len(t) : IsNewline(t[j]) \/ (t[j] = 45 /\ j > i /\ t[j-1] = 45)}
                 IN IF stops = {} THEN Len(t) + 1 ELSE MinOf(stops) + 1
\* first position after the block comment whose text starts at i, or 0
RECURSIVE BlockEnd(_, _, _)
BlockEnd(t, i, d) == IF i >= Len(t) THEN 0
                     ELSE IF t[i] = 42 /\ t[i+1] = 47 THEN (IF d = 1 THEN i + 2 ELSE BlockEnd(t, i + 2, d - 1))
                     ELSE IF t[i] = 47 /\ t[i+1] = 42 THEN BlockEnd(t, i + 2, d + 1)
                     ELSE BlockEnd(t, i + 1, d)

NoErr == [toks |-> <<>>, err |-> <<>>, gray |-> FALSE]
Prepend(item, r) == [r EXCEPT !.toks = <<item>> \o @]
GrayR == [NoErr EXCEPT !.gray = TRUE]
ErrAt(t, lo, hi) == [NoErr EXCEPT !.err = IF lo = hi THEN <<Newlines(t, 1, lo - 1) + 1>>
                                          ELSE <<Newlines(t, 1, lo - 1) + 1, Newlines(t, 1, hi - 1) + 1>>]
\* the symbols of the notation, longest first
SymCodes == << <<58,58,61>>, <<46,46,46>>, <<46,46>>, <<91,91>>, <<93,93>> >>
RECURSIVE LexDecl(_, _, _)
LexDecl(t, i, afterNum) ==
  LET c == At(t, i) IN
  IF c = EndOfText THEN NoErr
  ELSE IF IsSpace(c) THEN LexDecl(t, i + 1, FALSE)
  ELSE IF c = 45 /\ At(t, i + 1) = 45 THEN LexDecl(t, LineEnd(t, i + 2), FALSE)
  ELSE IF c = 47 /\ At(t, i + 1) = 42 THEN
       LET e == BlockEnd(t, i + 2, 1)
       IN IF e = 0 THEN [NoErr EXCEPT !.err = <<Newlines(t, 1, i) + 1, Newlines(t, 1, Len(t)) + 1>>]
          ELSE LexDecl(t, e, FALSE)
  ELSE IF IsForeignLetter(c) THEN GrayR
  ELSE IF IsUpper(c) \/ IsLower(c) THEN
       IF afterNum THEN
          IF c \in {69, 101} /\ (IsDigit(At(t, i + 1)) \/ At(t, i + 1) = 45)
          THEN Prepend(Item("exp", "e"), LexDecl(t, i + 1, FALSE))
          ELSE [GrayR EXCEPT !.toks = IF c \in {69, 101} THEN <<Item("exp", "e")>> ELSE <<>>]
       ELSE LET j == WordEnd(t, i)
                w == SubSeq(t, i, j)
                dbl == \E k \in 1..(Len(w) - 1) : w[k] = 45 /\ w[k+1] = 45
            IN IF dbl THEN ErrAt(t, i, i)
               ELSE IF IsForeignLetter(At(t, j + 1)) THEN GrayR
               ELSE IF w[Len(w)] = 45 THEN ErrAt(t, i, i)
               ELSE Prepend(WordItem(w), LexDecl(t, j + 1, FALSE))
  ELSE IF IsDigit(c) THEN
       LET j == NumEnd(t, i)
       IN IF IsForeignLetter(At(t, j + 1)) THEN GrayR
          ELSE IF ~FitsInt(SubSeq(t, i, j)) THEN ErrAt(t, i, i)
          ELSE Prepend(Item("num", NumText(SubSeq(t, i, j))), LexDecl(t, j + 1, TRUE))
  ELSE LET cand == {k \in 1..Len(SymCodes) : SubSeq(t, i, MinOf({Len(t), i + Len(SymCodes[k]) - 1})) = SymCodes[k]}
       IN IF cand # {} THEN LET s == SymCodes[MinOf(cand)] IN Prepend(SymItem(Str(s)), LexDecl(t, i + Len(s), FALSE))
          ELSE IF c \in SingleSymbols THEN Prepend(SymItem(Chr(c)), LexDecl(t, i + 1, FALSE))
          ELSE ErrAt(t, i, i)

CodeOf == [ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch)]
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
\* what a reader may fail with; none of these is the end of the text
Failures == <<"plain", "unexpected-eof", "no-progress", "closed", "timeout", "path", "verbs", "short", "wrapped-eof", "list", "again", "canceled", "other-eof">>
=============================================================================
