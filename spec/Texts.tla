------------------------------- MODULE Texts -------------------------------
(* Real modules, selections of their assignments, and changes of both.
     whole  the documents as they are
     near   selections with items exchanged for others of their kind, and
            phrases put where they often may stand
     closed  selections with the references that lead nowhere replaced, and
            then changed as near
     items  selections with any items and phrases put anywhere
     chars  selections laid out and changed character by character
     each   every character before, after and within a selection
     many   closed selections with one element of a list, or one assignment,
            repeated many times under other names, with one name made long,
            with numbers at the bounds                                          *)
EXTENDS Changes, FiniteSets, CSV, Json

CONSTANTS DocFile,      \* JSON: the documents, each a sequence of characters
          Source,       \* "whole", "near", "closed", "items", "chars", "each" or "many"
          Docs,         \* which documents
          TextLo, TextHi,   \* which selections: seeds
          Most,         \* most assignments of a selection
          MostChanges   \* most changes

LexedDoc(cs) == LET q == TLCEval(LexAll(cs)) IN [toks |-> TLCEval([i \in 1..Len(q.toks) |-> q.toks[i].v]), kinds |-> TLCEval([i \in 1..Len(q.toks) |-> q.toks[i].k]),
                                                 tl |-> Append(q.tl, q.line + 1), err |-> q.err, gray |-> q.gray, cs |-> cs]
ASSUME TLCSet(52, TLCEval(LET D == JsonDeserialize(DocFile) IN [d \in Docs |-> LexedDoc(D[d])]))
Doc(d) == TLCGet(52)[d]
\* item positions where a type assignment starts, and the header before them
Starts(ts, ks) == SelectSeq(TLCEval([i \in 1..Len(ts) |-> i]), LAMBDA i : i > 1 /\ i < Len(ts) /\ ks[i] = "tref" /\ ts[i+1] = "::=" /\ ks[i-1] # "id")
\* the kinds of all items that may be met
ASSUME TLCSet(54, TLCEval([x \in UNION ({{Doc(d).toks[i] : i \in 1..Len(Doc(d).toks)} : d \in Docs} \cup {{Pool[i] : i \in 1..Len(Pool)}, {UpperPool[i] : i \in 1..Len(UpperPool)}, {LowerPool[i] : i \in 1..Len(LowerPool)}}) |-> KeyOf(x)]))
KnownKey == TLCGet(54)
KeyC(x) == IF x \in DOMAIN KnownKey THEN KnownKey[x] ELSE KeyOf(x)
ASSUME TLCSet(53, TLCEval([d \in Docs |-> LET x == Doc(d) s == Starts(x.toks, x.kinds)
                                          IN [starts |-> Append(s, Len(x.toks)), head |-> IF s = <<>> THEN x.toks ELSE SubSeq(x.toks, 1, s[1] - 1)]]))
Cuts(d) == TLCGet(53)[d]
PlainHead == <<"Module", "DEFINITIONS", "::=", "BEGIN">>
Piece(d, i) == SubSeq(Doc(d).toks, Cuts(d).starts[i], Cuts(d).starts[i + 1] - 1)
RECURSIVE Pieces(_, _)
Pieces(k, n) == IF n = 0 THEN <<>>
                ELSE LET d == Pick(SetToSeq(Docs), Mix(k)) IN
                     (IF Len(Cuts(d).starts) < 2 THEN <<>> ELSE Piece(d, 1 + (Mix(k + 1) % (Len(Cuts(d).starts) - 1)))) \o Pieces(Mix(k + 2), n - 1)
Selection(k) == LET d == Pick(SetToSeq(Docs), Mix(k)) n == 1 + (Mix(k + 3) % Most) IN
                TLCEval((IF Mix(k + 4) % 3 = 0 THEN Cuts(d).head ELSE PlainHead) \o Pieces(Mix(k + 5), n) \o <<"END">>)

\* a selection whose references all lead somewhere: to its own types, or replaced by a builtin type
Heads == << PlainHead, <<"Module", "DEFINITIONS", "IMPLICIT", "TAGS", "::=", "BEGIN">>, <<"Mod-Ule", "DEFINITIONS", "EXPLICIT", "TAGS", "::=", "BEGIN">> >>
Leaves == <<"INTEGER", "BOOLEAN", "UTF8String", "IA5String", "GeneralizedTime", "REAL", "NumericString", "ANY", "UTCTime">>
Defined(ps) == {ps[i][1] : i \in 1..Len(ps)}
RECURSIVE Distinct_(_, _)
Distinct_(k, n) == IF n = 0 THEN <<>>
                   ELSE LET rest == Distinct_(Mix(k + 2), n - 1)
                            d == Pick(SetToSeq(Docs), Mix(k))
                            p == IF Len(Cuts(d).starts) < 2 THEN <<>> ELSE Piece(d, 1 + (Mix(k + 1) % (Len(Cuts(d).starts) - 1)))
                        IN IF p = <<>> \/ p[1] \in Defined(rest) THEN rest ELSE <<p>> \o rest
Resolved(p, names, k) ==
  TLCEval([i \in 1..Len(p) |->
    IF p[i] = "NULL" THEN "BOOLEAN"
    ELSE IF KeyC(p[i]) # "upper" \/ p[i] \in names THEN p[i]
    ELSE LET x == Mix(Mix(k + 3) + 7 * i) IN IF x % 3 = 0 THEN Pick(SetToSeq(names), Mix(x)) ELSE Pick(Leaves, Mix(x))])
ClosedSelection(k) == LET ps == TLCEval(Distinct_(Mix(k + 5), 1 + (Mix(k + 3) % Most))) names == TLCEval(Defined(ps)) IN
                      TLCEval(Pick(Heads, Mix(k + 4)) \o FoldLeft(LAMBDA acc, p : acc \o Resolved(p, names, Mix(k + 9 + Len(acc))), <<>>, ps) \o <<"END">>)

\* a phrase of the text put somewhere else, or in place of another
Phrase(ts, k) == LET i == 1 + (Mix(k) % Len(ts)) n == Mix(k + 1) % 9 j == IF i + n > Len(ts) THEN Len(ts) ELSE i + n
                     q == 1 + (Mix(k + 2) % (Len(ts) + 1)) d == IF Mix(k + 3) % 2 = 0 THEN 0 ELSE Mix(k + 4) % 9
                 IN Splice(ts, q, IF q + d > Len(ts) THEN 0 ELSE d, SubSeq(ts, i, j))
\* an item replaced by another one that may stand in its place
Alike == << <<"BOOLEAN", "NULL", "REAL", "UTF8String", "IA5String", "INTEGER", "ANY", "VisibleString", "GeneralizedTime", "BMPString", "Foo">>,
            <<"IMPLICIT", "EXPLICIT">>, <<"IMPLICIT", "EXPLICIT", "AUTOMATIC">>, <<"SEQUENCE", "SET">>, <<"|", "UNION", "^", "INTERSECTION", "EXCEPT">>, <<"TRUE", "FALSE">>,
            <<"APPLICATION", "PRIVATE", "UNIVERSAL">>, <<"MIN", "0">>, <<"MAX", "9">>, <<"PRESENT", "ABSENT", "OPTIONAL">>, <<"OCTET", "BIT", "CHARACTER">>, <<"..", "|", "..", "EXCEPT">> >>
Twin(ts, k) == LET i == 1 + (Mix(k) % Len(ts)) key == KeyC(ts[i]) x == Mix(k + 1)
                   al == SelectSeq(Alike, LAMBDA s : \E j \in 1..Len(s) : s[j] = ts[i]) IN
               CASE key = "upper" -> Splice(ts, i, 1, <<IF x % 4 = 0 THEN Pick(Alike[1], x) ELSE Pick(UpperPool, x)>>)
                 [] key = "lower" -> Splice(ts, i, 1, <<Pick(LowerPool, x)>>)
                 [] key = "num"   -> Splice(ts, i, 1, IF x % 5 = 0 THEN <<NthReal(x).text>> ELSE IF x % 7 = 0 THEN <<"-", Pick(NumPool, x)>> ELSE <<Pick(NumPool, x)>>)
                 [] al # <<>> -> Splice(ts, i, 1, <<Pick(Pick(al, x), Mix(x))>>)
                 [] OTHER -> Splice(ts, i, 1, <<ts[1 + (x % Len(ts))]>>)
\* something put where it often may stand: after a name, before a comma or a brace
AfterName == << <<"[", "3", "]">>, <<"[", "APPLICATION", "2", "]", "IMPLICIT">>, <<"[", "PRIVATE", "n", "]", "EXPLICIT">>, <<"SEQUENCE", "OF">>, <<"SET", "SIZE", "(", "1", ")", "OF">>,
                <<"SEQUENCE", "(", "SIZE", "(", "1", "..", "5", ")", ")", "OF", "x">>, <<"(", "5", ")", ",", "z">>, <<"SEQUENCE", "{", "}", ",", "y">>, <<"CHOICE", "{", "a", "NULL", "}", ",", "q">>,
                <<"ENUMERATED", "{", "a", ",", "b", "(", "7", ")", "}", ",", "en">>, <<"INTEGER", "{", "one", "(", "1", ")", "}", "DEFAULT", "one", ",", "e">> >>
BeforeEnd == << <<"OPTIONAL">>, <<"DEFAULT", "5">>, <<"DEFAULT", "-", "1">>, <<"DEFAULT", "TRUE">>, <<"DEFAULT", "none">>, <<"DEFAULT", "1.5E3">>, <<"(", "1", "|", "2", "^", "3", ")">>,
                <<"(", "SIZE", "(", "1", "..", "MAX", ")", ")">>, <<"(", "ALL", "EXCEPT", "1", ")">>, <<"(", "A", "|", "(", "B", "EXCEPT", "c", ")", ",", "...", ")">>, <<"(", "0", "<", "..", "<", "9", ")">>,
                <<"(", "MIN", "<", "..", "<", "MAX", ")">>, <<"(", "5", "!", "-", "3", ")">>, <<",", "...">>, <<",", "...", ",", "added", "REAL", "OPTIONAL">>, <<",", "other", "[", "9", "]", "Foo">>,
                <<"(", "WITH", "COMPONENTS", "{", "...", ",", "a", "(", "1", ")", "PRESENT", "}", ")">>, <<"(", "WITH", "COMPONENT", "(", "1", ")", ")">> >>
Put(ts, k) == LET names == SelectSeq(TLCEval([i \in 1..Len(ts) |-> i]), LAMBDA i : KeyC(ts[i]) = "lower")
                  ends == SelectSeq(TLCEval([i \in 1..Len(ts) |-> i]), LAMBDA i : i > 1 /\ ts[i] \in {",", "}"} /\ ts[i-1] \notin {"{", ",", "..."})
              IN IF k % 2 = 0 /\ names # <<>> THEN Splice(ts, Pick(names, Mix(k)) + 1, 0, Pick(AfterName, Mix(k + 1)))
                 ELSE IF ends # <<>> THEN Splice(ts, Pick(ends, Mix(k)), 0, Pick(BeforeEnd, Mix(k + 1)))
                 ELSE ts
RECURSIVE Changed(_, _, _)
Changed(ts, k, n) == IF n = 0 \/ ts = <<>> THEN ts
                     ELSE Changed(TLCEval(LET q == k % 6 IN
                            CASE q \in {0, 1} \/ (Source \in {"near", "closed"} /\ q < 3) -> Twin(ts, Mix(k + 1))
                              [] q = 2 \/ Source \in {"near", "closed"} -> Put(ts, Mix(k + 1))
                              [] q \in {3, 4} -> Phrase(ts, Mix(k + 1))
                              [] OTHER -> Apply(ts, Mix(k + 1), 1)),
                                  Mix(k + 11), n - 1)

\* many: where an element of a list ends that starts at i
RECURSIVE ElementEnd(_, _, _)
ElementEnd(ts, i, d) == IF i > Len(ts) THEN 0
                        ELSE IF d = 0 /\ ts[i] \in {",", "|", "UNION", "}", ")", ";", "FROM", "]", "..."} THEN i - 1
                        ELSE ElementEnd(ts, i + 1, IF ts[i] \in {"{", "(", "["} THEN d + 1 ELSE IF ts[i] \in {"}", ")", "]"} THEN d - 1 ELSE d)
RECURSIVE ManyTimes(_, _, _, _)
Renamed(e, j, n) == [e EXCEPT ![j] = IF KeyC(e[j]) \in {"lower", "upper"} THEN @ \o "-" \o ToString(n) ELSE @]
ManyTimes(e, j, n, acc) == IF n = 0 THEN acc ELSE ManyTimes(e, j, n - 1, acc \o Renamed(e, j, n))
Fewer(n, size) == IF n * size > 1400 THEN 1400 \div size ELSE n    \* not more than so many items
Repeated(ts, k, n) ==
  LET seps == SelectSeq(TLCEval([i \in 1..Len(ts) |-> i]), LAMBDA i : i < Len(ts) /\ ts[i] \in {",", "|", "UNION"} /\ ts[i + 1] # "...")
      types == SelectSeq(TLCEval([i \in 1..Len(ts) |-> i]), LAMBDA i : i > 1 /\ i < Len(ts) /\ KeyC(ts[i]) = "upper" /\ ts[i+1] = "::=" /\ KeyC(ts[i-1]) # "lower")
  IN IF seps # <<>> /\ k % 4 # 0 THEN
       LET i == Pick(seps, Mix(k)) j == ElementEnd(ts, i + 1, 0) IN
       IF j < i + 1 \/ j - i > 40 THEN ts ELSE Splice(ts, j + 1, 0, ManyTimes(SubSeq(ts, i, j), 2, Fewer(n, j - i), <<>>))
     ELSE IF types # <<>> THEN
       LET q == 1 + (Mix(k) % Len(types)) i == types[q] j == IF q < Len(types) THEN types[q + 1] - 1 ELSE Len(ts) - 1 IN
       IF j - i > 60 THEN Splice(ts, i, 0, ManyTimes(<<ts[i], "::=", "BOOLEAN">>, 1, n, <<>>))
       ELSE Splice(ts, j + 1, 0, ManyTimes(SubSeq(ts, i, j), 1, Fewer(n, j - i), <<>>))
     ELSE ts
\* one name made long, everywhere
RECURSIVE LongTail(_)
LongTail(n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN "x" \o LongTail(n - 1) ELSE LET h == LongTail(n \div 2) IN h \o h
Lengthened(ts, k, n) == LET names == SelectSeq(TLCEval([i \in 1..Len(ts) |-> i]), LAMBDA i : KeyC(ts[i]) \in {"lower", "upper"})
                        IN IF names = <<>> THEN ts
                           ELSE LET x == ts[Pick(names, Mix(k))] y == x \o (IF k % 2 = 0 THEN "-b" ELSE "y") \o LongTail(n) IN TLCEval([i \in 1..Len(ts) |-> IF ts[i] = x THEN y ELSE ts[i]])
Bounds == <<"0", "30", "31", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "4611686018427387904", "9223372036854775807">>
Bounded_(ts, k) == LET nums == SelectSeq(TLCEval([i \in 1..Len(ts) |-> i]), LAMBDA i : KeyC(ts[i]) = "num") IN
                   IF nums = <<>> THEN ts ELSE Splice(ts, Pick(nums, Mix(k)), 1, <<Pick(Bounds, Mix(k + 1))>>)
\* wide: how many times at most, for texts of which only few are read
ManySizes == <<20, 70, 130, 260, 300>>
Grown(k) == LET b == ClosedSelection(k) x == Mix(k + 21) IN
            TLCEval(CASE k % 5 = 0 -> Lengthened(b, x, Pick(<<60, 126, 127, 128, 254, 255, 256, 500, 1022>>, Mix(x)))
                      [] k % 5 = 1 -> Bounded_(Bounded_(b, x), Mix(x + 1))
                      [] OTHER -> Repeated(b, x, Pick(ManySizes, Mix(x))))

Control == ("\n" :> 10) @@ ("\r" :> 13) @@ ("\t" :> 9) @@ ("\f" :> 12)
CodesX(s) == TLCEval([i \in 1..Len(s) |-> LET ch == SubSeq(s, i, i) IN IF ch \in DOMAIN Control THEN Control[ch] ELSE CodeOf[ch]])
RECURSIVE Written2(_, _, _)
Written2(ts, k, i) == IF i > Len(ts) THEN CodesX(Gap(k, i - 1).s) ELSE CodesX(Gap(k, i - 1).s) \o CodesX(ts[i]) \o Written2(ts, k, i + 1)
Strange == <<32, 10, 45, 47, 42, 46, 58, 61, 91, 93, 123, 125, 40, 41, 44, 59, 65, 97, 48, 57, 124, 94, 33, 60, 62, 34, 39, 64, 35, 95, 0, 127, 160, 13, 11, 12, 9, 8364, 1114112 + 255, 90, 122, 69, 101,
             26, 1, 4, 7, 8, 14, 27, 28, 31, 36, 37, 38, 43, 63, 92, 96, 126, 133, 8232, 65279, 26, 0>>
CharChange(cs, k) == LET i == 1 + (Mix(k) % Len(cs)) x == Pick(Strange, Mix(k + 1)) IN
  CASE k % 7 = 0 -> Splice(cs, i, 1, <<>>)
    [] k % 7 = 1 -> Splice(cs, i, 1, <<x>>)
    [] k % 7 = 2 -> Splice(cs, i, 0, <<x>>)
    [] k % 7 = 4 -> IF k % 3 = 0 THEN <<x>> \o cs ELSE Append(cs, x)
    [] k % 7 = 3 /\ i < Len(cs) -> Splice(cs, i, 2, <<cs[i+1], cs[i]>>)
    [] OTHER -> Splice(cs, i, 1, <<cs[i], cs[i]>>)
RECURSIVE CharsChanged(_, _, _)
CharsChanged(cs, k, n) == IF n = 0 THEN cs ELSE CharsChanged(TLCEval(CharChange(cs, k)), Mix(k + 13), n - 1)

\* now and then very many lines in one place: n times a unit after item at
Units == << [s |-> "\n", n |-> 1], [s |-> "\r\n", n |-> 2], [s |-> " --\n", n |-> 1], [s |-> "\t\f", n |-> 1], [s |-> " ", n |-> 0], [s |-> "/* \n */", n |-> 1] >>
Far(k, n) == IF k % 12 # 5 THEN [at |-> 0, n |-> 0, unit |-> Units[1]]
             ELSE [at |-> Mix(k + 31) % (n + 1), n |-> Pick(<<126, 127, 128, 254, 255, 256, 300, 32767, 32768, 65535, 65536, 70000>>, Mix(k + 32)), unit |-> Pick(Units, Mix(k + 33))]
ItemText(k) == LET ts == TLCEval(IF Source = "many" THEN Grown(k) ELSE Changed(IF Source = "closed" THEN ClosedSelection(k) ELSE Selection(k), Mix(k + 6), Mix(k + 7) % (MostChanges + 1)))
                   lay == IF k % 4 = 0 THEN 0 ELSE Mix(k + 8)
                   far == TLCEval(Far(k, Len(ts)))
                   gs == TLCEval([i \in 1..(Len(ts) + 1) |-> Gap(lay, i - 1)])
                   nl == TLCEval([i \in 1..(Len(ts) + 1) |-> gs[i].n + IF far.at + 1 = i THEN far.n * far.unit.n ELSE 0])
               IN [toks |-> ts, keys |-> TLCEval([i \in 1..Len(ts) |-> KeyC(ts[i])]), gaps |-> TLCEval([i \in 1..Len(gs) |-> gs[i].s]), far |-> far,
                   tl |-> FoldLeft(LAMBDA acc, n : Append(acc, (IF acc = <<>> THEN 1 ELSE acc[Len(acc)]) + n), <<>>, nl), cs |-> <<>>, err |-> <<>>, gray |-> FALSE]
KeyOfItem(k, v) == CASE k = "tref" -> "upper" [] k = "id" -> "lower" [] k = "num" -> "num" [] OTHER -> v
CharText(cs) == LET x == LexedDoc(cs) IN
                [toks |-> x.toks, keys |-> TLCEval([i \in 1..Len(x.toks) |-> KeyOfItem(x.kinds[i], x.toks[i])]), gaps |-> <<>>, tl |-> x.tl, cs |-> cs, err |-> x.err,
                 \* an exponent mark stands in a real number: reals in character texts are not read here
                 gray |-> x.gray \/ \E i \in 1..Len(x.toks) : x.kinds[i] = "exp"]
Others == <<128, 133, 160, 173, 8203, 8232, 8364, 12288, 65279, 65533, 1114111, 1114112 + 255>>
EachText(k) == LET c == k % 140
                   x == IF c < 128 THEN c ELSE Others[c - 127]
                   cs == TLCEval(Written2(Selection(k \div 140), 0, 1))
                   n == Len(cs)
               IN CASE (k \div 140) % 6 = 0 -> <<x>> \o cs
                    [] (k \div 140) % 6 = 1 -> Append(cs, x)
                    [] (k \div 140) % 6 = 2 -> cs \o <<10, x, 32, 65>>
                    [] (k \div 140) % 6 = 3 -> cs \o <<32, x, 10>>
                    [] (k \div 140) % 6 = 4 -> Splice(cs, 1 + (Mix(k \div 140) % n), 1, <<x>>)
                    [] OTHER -> Splice(cs, 1 + (Mix(k \div 140) % n), 0, <<x>>)
TextFor(k, d) == CASE Source = "whole" -> CharText(Doc(d).cs)
                   [] Source \in {"items", "near", "closed", "many"} -> ItemText(k)
                   [] Source = "each" -> CharText(EachText(k))
                   [] OTHER -> CharText(CharsChanged(Written2(Selection(k), IF k % 3 = 0 THEN 0 ELSE Mix(k + 8), 1), Mix(k + 6), Mix(k + 7) % (MostChanges + 1)))
=============================================================================
