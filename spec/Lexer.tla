------------------------------- MODULE Lexer -------------------------------
(* How text is divided into lexical items, one character per step.

   Characters are code points; 1114112 + b stands for the byte b that is not
   part of valid UTF-8.  The environment chooses the next character (from a
   finite alphabet) or a whole chunk; the automaton consumes it.  `gray' marks
   texts about which nothing is claimed.  Definite outcomes at the end of the
   text: the items, or an error and the lines it may be reported on.

   The declarative reading of the rules (longest item first) is LexDecl; that
   the automaton agrees with it is checked as an invariant.                   *)
EXTENDS LexRules, CSV, Json

CONSTANTS Alphabet,     \* codes that may be typed one by one
          Chunks,       \* sequence of sequences of codes that may be typed at once
          MaxLen,       \* longest text (in characters typed plus chunks)
          Pads,         \* numbers of spaces that may precede the text
          Heads,        \* texts that may come first
          EmitAll,      \* TRUE: every prefix is a test; FALSE: only texts of full length
          StopAtErr,    \* TRUE: no typing after the first error
          CheckDecl,    \* TRUE: compare with the declarative reading
          OutFile

VARIABLES text,    \* what was typed
          mode,    \* automaton state: a record with field m
          toks,    \* items completed
          line,    \* newline characters consumed
          err,     \* <<>> or <<set of lines as sequence>>
          gray, queue, size, pad, ended
vars == <<text, mode, toks, line, err, gray, queue, size, pad, ended>>

Here == [m |-> mode, toks |-> toks, tl |-> <<>>, line |-> line, err |-> err, gray |-> gray]

----------------------------------------------------------------------------
(* Vocabulary for long texts.                                                 *)
Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Sp(s) == Codes(s) \o <<32>>
Odd == << "::", "....", "..", ".....", "[[[", "]]]", "{}", "-", "-1", "1.5", "1..5", "0", "1e5", "2E-3", "12e-4", "(1)", "a-b", "A-",
          "a--b", "-a", "1-", "a1", "A1-b2", "1a", "9223372036854775807", "9223372036854775808", "99999999999999999999",
          "18446744073709551616", "00", "007", "/", "*", "#", "$", "%", "&", "+", "?", "_", "`", "~", "a_b", "^", "!", "@", "|", ";",
          ",", "<", ">", "=", "'", "\"", ":", "::=", ":=", "[", "]", "[[", "]]", "...", ".", "1.", ".5", "END", "E", "e", "1 e5", "1E" >>
Remarks == << "-- c --", "--c--", "----", "-----", "------", "--- ---", "-- - - --", "/**/", "/***/", "/*/*/**/*/", "/* -- */", "-- /* --",
              "/* /* */ */", "/*/ */", "/*/**/*/", "/* a * / */", "-- \" ' { --", "/*--*/", "--/*--", "/* * */", "/*-*/", "/*//*/", "/* END */", "-- END --" >>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
NewlineChunks == << <<10>>, <<13, 10>>, <<13>>, <<11>>, <<12>>, <<9>>, <<32>>, <<10, 10>>, <<45, 45, 10>>, <<45, 45, 97, 13>>, <<45, 45, 45, 12>>,
                    <<47, 42, 10, 42, 47>>, <<47, 42, 13, 10, 11, 12, 42, 47>>, <<45, 45, 11, 32>>, <<45, 45, 32, 233, 10>>, <<47, 42, 8364, 1114112 + 255, 0, 42, 47>>,
                    <<45, 45, 119808, 45, 45>>, <<47, 42, 1114112 + 128, 47, 42, 20013, 42, 47, 42, 47>> >>
WordChunks == Map(Codes, ReservedWords) \o Map(Codes, UpperPool) \o Map(Codes, LowerPool) \o Map(Codes, NumPool)
TightChunks == WordChunks \o Map(Codes, Odd) \o Map(Codes, Odd) \o Map(Codes, Remarks) \o NewlineChunks
LooseChunks == Map(Sp, ReservedWords) \o Map(Sp, UpperPool) \o Map(Sp, LowerPool) \o Map(Sp, NumPool) \o Map(Sp, Symbols)
               \o Map(Sp, Symbols) \o Map(Sp, Symbols) \o Map(Sp, Remarks) \o NewlineChunks \o NewlineChunks
\* reserved words with a character added, dropped or re-cased
Mutants == Flat([i \in 1..Len(ReservedWords) |->
             LET w == Codes(ReservedWords[i]) k == 1 + ((i * 7) % Len(w)) IN
             << w \o <<65>>, w \o <<48>>, <<65>> \o w, <<97>> \o w, SubSeq(w, 1, Len(w) - 1), Tail(w),
                [w EXCEPT ![k] = IF IsUpper(@) THEN @ + 32 ELSE IF IsLower(@) THEN @ - 32 ELSE @],
                [w EXCEPT ![Len(w)] = IF IsUpper(@) THEN @ + 32 ELSE IF IsLower(@) THEN @ - 32 ELSE @],
                SubSeq(w, 1, k) \o <<45>> \o SubSeq(w, k + 1, Len(w)), w \o <<45, 120>> >>])
MutantChunks == LET ms == TLCEval(Mutants) IN [i \in 1..Len(ms) |-> ms[i] \o <<32>>]
\* very long words, numbers, comments and white space
RECURSIVE Times(_, _)
Times(cs, n) == IF n = 0 THEN <<>> ELSE IF n % 2 = 1 THEN cs \o Times(cs, n - 1) ELSE LET h == TLCEval(Times(cs, n \div 2)) IN h \o h
LongSizes == <<30, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 513>>
LongChunks == Flat([i \in 1..Len(LongSizes) |-> LET n == LongSizes[i] IN
                << Times(<<97>>, n), Times(<<65>>, n), <<98>> \o Times(<<45, 66>>, n \div 2), <<67>> \o Times(<<48>>, n) \o <<45, 120>>, Times(<<97>>, n) \o <<45, 45>>,
                   <<45, 45>> \o Times(<<120>>, n) \o <<45, 45>>, <<45, 45>> \o Times(<<45, 32>>, n) \o <<10>>, Times(<<47, 42>>, n) \o Times(<<42, 47>>, n), Times(<<47, 42>>, n) \o Times(<<42, 47>>, n - 1),
                   Times(<<47, 42>>, n) \o <<10>> \o Times(<<42, 47, 13>>, n), <<47, 42>> \o Times(<<42, 32>>, n) \o <<42, 47>>, Times(<<32>>, n), Times(<<10>>, n), Times(<<9, 11>>, n), Times(<<13, 10>>, n),
                   <<49>> \o Times(<<48>>, n), Times(<<48>>, n) \o <<55>>, Times(<<91>>, n), Times(<<46>>, n), Times(<<58>>, n) \o <<61>>, Times(<<123, 125>>, n) >>])
              \o Map(Sp, <<"BEGIN", "END", "Foo", "a", "::=", "{", "5", "-- x --">>) \o Map(Sp, <<"BEGIN", "END", "Foo", "a", "::=", "{", "5", "-- x --">>) \o NewlineChunks \o NewlineChunks
NoChunks == <<>>
\* beginnings: of nothing, of comments, of items
NoHeads == {<<>>}
CommentHeads == {Codes(s) : s \in {"/*", "/* *", "/*/", "--", "-- -", "/*/*", "/*/**", "---"}}
ItemHeads == {Codes(s) : s \in {"A", "a", "1", "0", "A-", "a-b", "A1", "10", "..", ".", ":", "::", "[", "]", "-", "/", "BEGIN", "MINUS", "PLUS-INFINITY", "e", "1 ", "1 e", "..."}}

\* evaluated once, kept in a TLC register
ASSUME TLCSet(42, TLCEval(Chunks))
Table == TLCGet(42)

Init == /\ text = <<>> /\ mode = Ready(FALSE) /\ toks = <<>> /\ line = 0 /\ err = <<>>
        /\ gray = FALSE /\ queue \in Heads /\ size = 0 /\ ended = FALSE
        /\ pad \in Pads

Set(r) == mode' = r.m /\ toks' = r.toks /\ line' = r.line /\ err' = r.err /\ gray' = r.gray

Emits == EmitAll \/ size = MaxLen \/ (StopAtErr /\ err # <<>>)
MayGrow == ~ended /\ queue = <<>> /\ size < MaxLen /\ ~gray /\ (StopAtErr => err = <<>>)

Type(c) == /\ text' = Append(text, c) /\ Set(Step(Here, c)) /\ UNCHANGED <<pad, ended>>
TypeChar == /\ MayGrow
            /\ \E c \in Alphabet : Type(c)
            /\ size' = size + 1 /\ UNCHANGED queue
TypeChunk == /\ MayGrow
             /\ Len(Table) > 0
             /\ queue' = Table[RandomElement(1..Len(Table))]
             /\ size' = size + 1 /\ UNCHANGED <<text, mode, toks, line, err, gray, pad, ended>>
TypeQueued == /\ ~ended /\ queue # <<>>
              /\ Type(Head(queue)) /\ queue' = Tail(queue) /\ UNCHANGED size

Outcome(r) == [codes |-> text, pad |-> pad, toks |-> r.toks, err |-> IF r.err = <<>> THEN <<>> ELSE r.err[1]]
Finish == /\ ~ended /\ queue = <<>> /\ ~gray /\ Emits
          /\ LET r == Step(Here, EndOfText)
             IN IF r.gray THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(Outcome(r))>>, OutFile)
          /\ ended' = TRUE /\ UNCHANGED <<text, mode, toks, line, err, gray, queue, size, pad>>

Next == TypeChar \/ TypeChunk \/ TypeQueued \/ Finish
Spec == Init /\ [][Next]_vars

AsErr(r) == IF r.err = <<>> THEN {} ELSE {r.err[i] : i \in 1..Len(r.err)}
DeclAgrees ==
  (CheckDecl /\ ended) =>
    LET r == Step(Here, EndOfText)
        d == LexDecl(text, 1, FALSE)
    IN \/ r.gray /\ d.gray
       \/ /\ ~r.gray /\ ~d.gray
          /\ r.toks = d.toks
          /\ (IF r.err = <<>> THEN {} ELSE {r.err[1][i] : i \in 1..Len(r.err[1])}) = AsErr(d)
LineIsCount == err = <<>> /\ ~gray => line = Newlines(text, 1, Len(text))

IsPrefixOf(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
ItemsOnlyGrow == [][IsPrefixOf(toks, toks')]_vars
=============================================================================
