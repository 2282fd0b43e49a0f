-------------------------------- MODULE X690 --------------------------------
(* X.690: octets of the distinguished encoding rules, as sequences of numbers. *)
EXTENDS Integers, Sequences, TLC

\* ------------------------------------------------------------ octets
RECURSIVE Digits(_, _)    \* n in base b, most significant first, at least one digit
Digits(n, b) == IF n < b THEN <<n>> ELSE Append(Digits(n \div b, b), n % b)
Base128(n) == LET d == Digits(n, 128) IN [i \in 1..Len(d) |-> IF i < Len(d) THEN d[i] + 128 ELSE d[i]]
\* two's complement, shortest
RECURSIVE Signed2(_)
Signed2(n) == IF n >= -128 /\ n <= 127 THEN <<IF n < 0 THEN n + 256 ELSE n>>
              ELSE Append(Signed2((n - (n % 256)) \div 256), n % 256)
IntContent(n) == Signed2(n)
LenOctets(n) == IF n < 128 THEN <<n>> ELSE LET d == Digits(n, 256) IN <<128 + Len(d)>> \o d
ClassBits(cls) == CASE cls = "UNIVERSAL" -> 0 [] cls = "APPLICATION" -> 64 [] cls = "CONTEXT" -> 128 [] cls = "PRIVATE" -> 192
Identifier(cls, constructed, n) ==
  LET lead == ClassBits(cls) + (IF constructed THEN 32 ELSE 0)
  IN IF n < 31 THEN <<lead + n>> ELSE <<lead + 31>> \o Base128(n)
TLV(cls, constructed, n, content) == Identifier(cls, constructed, n) \o LenOctets(Len(content)) \o content
\* the identifier octets of an encoding, and the rest
RECURSIVE MoreId(_, _)
MoreId(e, i) == IF e[i] >= 128 THEN MoreId(e, i + 1) ELSE i
IdLen(e) == IF e[1] % 32 = 31 THEN MoreId(e, 2) ELSE 1
Constructed(e) == (e[1] \div 32) % 2 = 1
Retag(e, cls, n) == Identifier(cls, Constructed(e), n) \o SubSeq(e, IdLen(e) + 1, Len(e))

RECURSIVE Less(_, _)      \* octet order; an encoding that is a prefix comes first
Less(x, y) == IF x = <<>> THEN y # <<>> ELSE IF y = <<>> THEN FALSE
              ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Less(Tail(x), Tail(y))
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = <<>> THEN <<e>> ELSE IF Less(e, s[1]) THEN <<e>> \o s ELSE <<s[1]>> \o Insert(Tail(s), e)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), s[1])
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

Pad2(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
YMD(t, four) == (IF four THEN Pad2(t.y \div 100) ELSE <<>>) \o Pad2(t.y % 100) \o Pad2(t.mo) \o Pad2(t.d) \o Pad2(t.h) \o Pad2(t.mi) \o Pad2(t.s) \o <<90>>
StrTag(s) == CASE s = "UTF8String" -> 12 [] s = "NumericString" -> 18 [] s = "PrintableString" -> 19 [] s = "TeletexString" -> 20 [] s = "T61String" -> 20 [] s = "VideotexString" -> 21
               [] s = "IA5String" -> 22 [] s = "GraphicString" -> 25 [] s = "VisibleString" -> 26 [] s = "ISO646String" -> 26 [] s = "GeneralString" -> 27
               [] s = "UniversalString" -> 28 [] s = "BMPString" -> 30

----------------------------------------------------------------------------
\* the encoder against worked examples of X.690 and its arithmetic against itself
RECURSIVE FromSigned(_, _)
FromSigned(b, i) == IF i = 0 THEN 0 ELSE FromSigned(b, i - 1) * 256 + b[i]
ASSUME \A n \in (-33000..33000) : LET b == IntContent(n) u == FromSigned(b, Len(b)) IN
         /\ n = IF b[1] >= 128 THEN u - (CASE Len(b) = 1 -> 256 [] Len(b) = 2 -> 65536 [] OTHER -> 16777216) ELSE u
         /\ Len(b) > 1 => ~(b[1] = 0 /\ b[2] < 128) /\ ~(b[1] = 255 /\ b[2] >= 128)
ASSUME Base128(840) = <<134, 72>> /\ Base128(113549) = <<134, 247, 13>> /\ LenOctets(201) = <<129, 201>> /\ LenOctets(300) = <<130, 1, 44>>
ASSUME Identifier("APPLICATION", TRUE, 1) = <<97>> /\ Identifier("CONTEXT", FALSE, 31) = <<159, 31>> /\ Identifier("PRIVATE", TRUE, 200) = <<255, 129, 72>>
=============================================================================
