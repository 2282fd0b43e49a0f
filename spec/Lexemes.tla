------------------------------ MODULE Lexemes ------------------------------
(* The vocabulary of the notation: reserved words and symbols (X.680 11.x),
   plus the pools of references, identifiers, numbers and reals from which
   generated texts draw.  Numbers are decimal strings throughout, because the
   specification must not inherit the arithmetic of the implementation.      *)
EXTENDS Integers, Sequences, TLC

ReservedWords == <<
  "ABSENT", "ENCODED", "INTEGER", "RELATIVE-OID", "ABSTRACT-SYNTAX", "END",
  "INTERSECTION", "SEQUENCE", "ALL", "ENUMERATED", "ISO646String", "SET",
  "APPLICATION", "EXCEPT", "MAX", "SIZE", "AUTOMATIC", "EXPLICIT", "MIN",
  "STRING", "BEGIN", "EXPORTS", "MINUS-INFINITY", "SYNTAX", "BIT",
  "EXTENSIBILITY", "NULL", "T61String", "BMPString", "EXTERNAL",
  "NumericString", "TAGS", "BOOLEAN", "FALSE", "OBJECT", "TeletexString", "BY",
  "FROM", "ObjectDescriptor", "TRUE", "CHARACTER", "GeneralizedTime", "OCTET",
  "TYPE-IDENTIFIER", "CHOICE", "GeneralString", "OF", "UNION", "CLASS",
  "GraphicString", "OPTIONAL", "UNIQUE", "COMPONENT", "IA5String", "PATTERN",
  "UNIVERSAL", "COMPONENTS", "IDENTIFIER", "PDV", "UniversalString",
  "CONSTRAINED", "IMPLICIT", "PLUS-INFINITY", "UTCTime", "CONTAINING",
  "IMPLIED", "PRESENT", "UTF8String", "DEFAULT", "IMPORTS", "PrintableString",
  "VideotexString", "DEFINITIONS", "INCLUDES", "PRIVATE", "VisibleString",
  "EMBEDDED", "INSTANCE", "REAL", "WITH", "ANY", "DEFINED" >>

\* Longest first: the item a run of symbol characters starts with is the first
\* entry that is a prefix of it.
Symbols == <<"::=", "...", "..", "[[", "]]", "{", "}", "<", ">", ",", ".",
             "(", ")", "[", "]", "-", ":", "=", "\"", "'", ";", "@", "|", "!", "^">>

----------------------------------------------------------------------------
(* Pools.  They include names that extend, prefix or re-case reserved words,
   names made of one letter (among them e and E, which after a digit would be
   an exponent mark), and names longer than any small fixed buffer.          *)

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE
                IF n % 2 = 1 THEN s \o Repeat(s, n - 1)
                ELSE LET h == Repeat(s, n \div 2) IN h \o h

UpperPool == <<
  "A", "B", "C", "Alpha", "Beta-One", "E", "E5", "X9", "Foo-Bar-Baz", "T1", "T2",
  "ENDS", "Integer", "INTEGER1", "SEQUENCES", "SIZE-OF", "Begin", "MINUS", "PLUS",
  "MINUS-INFINITY-X", "Utf8String", "UTF8Strings", "OFF", "BYE", "FROMM", "Z-9-z",
  "DEFAULTS", "Sequence", "ANYTHING", "MAXX", "MI", "TypeWithAVeryLongNameThatGoesOnAndOn",
  "L" \o Repeat("o-ng9", 60), "TRUEISH", "A1B2", "Of", "COMPONENTS-OF", "REALM" >>

LowerPool == <<
  "a", "b", "c", "e", "e1", "x9", "foo", "foo-bar", "a-b-c", "integer", "end",
  "true", "false", "of", "size", "max", "identifierWithAVeryLongNameThatGoesOnAndOn",
  "optional", "default", "mIN", "zULU", "n" \o Repeat("a-b1", 70), "e-e", "x-1", "q7-8-9",
  "begin", "sEQUENCE", "universal", "tag-number", "i18n" >>

NumPool == <<
  "0", "1", "2", "3", "5", "7", "8", "9", "10", "16", "30", "31", "32", "63", "64",
  "99", "100", "127", "128", "200", "255", "256", "1000", "1024", "32767", "32768",
  "65535", "65536", "99999", "1000000", "2147483647", "2147483648", "4294967295",
  "4294967296", "9007199254740993", "1000000000000000000", "9223372036854775806",
  "9223372036854775807" >>

\* decimal digits of reals, as sequences of digits
DigitPool == << <<0>>, <<1>>, <<5>>, <<0,5>>, <<1,0>>, <<0,0,1>>, <<2,5>>, <<1,4,1,5,9>>,
                <<0,0,0,7,0>>, <<1,0,0>>, <<9,9>>, <<3>>, <<0,1,0>>, <<1,2,3,4,5,6>>, <<0,9>>,
                <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,7,5>>, <<9,8,7,6,5,4,3,2,1,0,1,2,3,4,5,6,7,8>>, <<5,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> >>
IntDigitPool == << <<0>>, <<1>>, <<2>>, <<3>>, <<1,0>>, <<1,2>>, <<9,9>>, <<1,0,0>>, <<2,5,5>>, <<1,2,3,4,5>>,
                   <<0,0,4>>, <<1,2,3,4,5,6,7,8,9,8,7,6,5,4,3,2,1,0>>, <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,3>> >>
ExpPool == <<0, 1, 2, 3, 5, 10, 12, 17, 30, 99, 100>>

----------------------------------------------------------------------------
(* Reals.  A real is written  int [. frac] [E [-] exp]; its value is the
   decimal  ddd * 10^x , normalised to "ddd" without leading or trailing
   zeros and "x" an integer, so that equal values have equal normal forms.   *)

DigitChar == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE DigitsStr(_)
DigitsStr(ds) == IF ds = <<>> THEN "" ELSE DigitChar[Head(ds) + 1] \o DigitsStr(Tail(ds))
RECURSIVE StripLead(_)
StripLead(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN StripLead(Tail(ds)) ELSE ds
RECURSIVE StripTrail(_)
StripTrail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN StripTrail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

NormalReal(int, frac, exp) ==
  LET all == int \o frac
      s   == StripTrail(all)
      x   == exp - Len(frac) + (Len(all) - Len(s))
      d   == StripLead(s)
  IN IF d = <<>> THEN "0" ELSE DigitsStr(d) \o "e" \o ToString(x)

RealText(int, frac, hasExp, mark, negExp, exp) ==
  DigitsStr(int)
  \o (IF frac = <<>> THEN "" ELSE "." \o DigitsStr(frac))
  \o (IF hasExp THEN mark \o (IF negExp THEN "-" ELSE "") \o ToString(exp) ELSE "")

\* the n-th real of the pool: a lexeme record  text / value
NthReal(n) ==
  LET int  == IntDigitPool[1 + (n % Len(IntDigitPool))]
      k    == n % 4
      frac == IF k = 3 THEN <<>> ELSE DigitPool[1 + ((n \div 3) % Len(DigitPool))]
      has  == k # 0
      neg  == (n \div 5) % 2 = 1
      ex   == ExpPool[1 + ((n \div 7) % Len(ExpPool))]
      mark == IF (n \div 2) % 2 = 1 THEN "e" ELSE "E"
  IN [text  |-> RealText(int, frac, has, mark, neg, ex),
      value |-> NormalReal(int, frac, IF ~has THEN 0 ELSE IF neg THEN -ex ELSE ex)]

\* drawing from pools
Pick(pool, k) == pool[1 + (k % Len(pool))]
Mix(k) == (k * 7919 + 104729) % 65537

NegNum(s) == IF s = "0" THEN "0" ELSE "-" \o s
NegReal(s) == IF s = "0" THEN "0" ELSE "-" \o s
=============================================================================
