----------------------------- MODULE MarshalFile -----------------------------
(* MarshalToFile: a history of calls on a directory.  The files p and q may hold
   anything before; the other paths cannot be written.  A call either leaves
   the encoding in the file it names and returns nil, or returns an error; a
   value that cannot be encoded changes nothing.                              *)
EXTENDS X690, FiniteSets, CSV, Json

CONSTANTS MaxCalls, Starts, Masks, OutFile    \* Starts: which prior contents; Masks: which permissions the process masks
VARIABLES fs, log, done, start, mask
vars == <<fs, log, done, start, mask>>

Rep(x, n) == [i \in 1..n |-> x]
Absent == <<-1>>
\* a run of equal octets is written <<-2, octet, how many>>
Contents == << Absent, Rep(171, 350), <<2, 1>>, <<>>, <<-2, 48, 300000>> >>

\* values; g: the Go value the driver builds
Values == << [g |-> "int", n |-> 5], [g |-> "int", n |-> -129], [g |-> "bool", b |-> TRUE], [g |-> "octets", x |-> 9, n |-> 0], [g |-> "octets", x |-> 7, n |-> 130], [g |-> "octets", x |-> 0, n |-> 260],
             [g |-> "pair", n |-> 256, x |-> 255, m |-> 3], [g |-> "list", v |-> <<1, -1, 300>>], [g |-> "string", s |-> <<65, 98, 32>>],
             [g |-> "octets", x |-> 5, n |-> 65535], [g |-> "octets", x |-> 200, n |-> 70000],
             [g |-> "chan"], [g |-> "half", n |-> 7], [g |-> "nil"], [g |-> "text", s |-> <<255, 254>>] >>
Encodable(v) == v.g \notin {"chan", "half", "nil", "text"}
EInt(n) == TLV("UNIVERSAL", FALSE, 2, IntContent(n))
EOct(x, n) == IF n < 1000 THEN TLV("UNIVERSAL", FALSE, 4, Rep(x, n)) ELSE Identifier("UNIVERSAL", FALSE, 4) \o LenOctets(n) \o <<-2, x, n>>
Octets(v) == CASE v.g = "int" -> EInt(v.n)
               [] v.g = "bool" -> TLV("UNIVERSAL", FALSE, 1, <<IF v.b THEN 255 ELSE 0>>)
               [] v.g = "octets" -> EOct(v.x, v.n)
               [] v.g = "pair" -> TLV("UNIVERSAL", TRUE, 16, EInt(v.n) \o EOct(v.x, v.m))
               [] v.g = "list" -> TLV("UNIVERSAL", TRUE, 16, Flatten([i \in 1..Len(v.v) |-> EInt(v.v[i])]))
               [] v.g = "string" -> TLV("UNIVERSAL", FALSE, 19, v.s)
Encodings == [i \in 1..Len(Values) |-> IF Encodable(Values[i]) THEN Octets(Values[i]) ELSE Absent]
Files == {"p", "q"}
Paths == <<"p", "q", "dir", "missing/x", "p/x", "toolong", "", "full">>
\* the permissions asked for; a file that is created gets those that the process does not mask
Modes == << 420, 384, 511, 438, 416, 390, 402, 493 >>
Bit(n, i) == (n \div (2 ^ i)) % 2
Unmasked(m, k) == LET RECURSIVE Sum(_)
                      Sum(i) == IF i = 9 THEN 0 ELSE (IF Bit(m, i) = 1 /\ Bit(k, i) = 0 THEN 2 ^ i ELSE 0) + Sum(i + 1)
                  IN Sum(0)
Granted == [k \in Masks |-> [i \in 1..Len(Modes) |-> Unmasked(Modes[i], k)]]
ASSUME \A k \in Masks, i \in 1..Len(Modes) : Granted[k][i] > 0 /\ Unmasked(Granted[k][i], k) = Granted[k][i]

Init == /\ mask \in Masks /\ fs \in [Files -> {Contents[i] : i \in Starts}] /\ log = <<>> /\ done = FALSE /\ start = fs
Call == /\ ~done /\ Len(log) < MaxCalls
        /\ \E p \in 1..Len(Paths), i \in 1..Len(Values) :
             LET path == Paths[p] ok == path \in Files /\ Encodable(Values[i]) m == 1 + ((i + Len(log)) % Len(Modes)) IN
             /\ fs' = IF ok THEN [fs EXCEPT ![path] = Encodings[i]] ELSE fs
             /\ log' = Append(log, [path |-> path, val |-> Values[i], ok |-> ok, mode |-> Modes[m], created |-> IF ok /\ fs[path] = Absent THEN Granted[mask][m] ELSE 0, der |-> IF ok THEN Encodings[i] ELSE <<>>,
                                 from |-> [f \in Files |-> IF ok /\ f = path THEN Len(log) + 1 ELSE IF log = <<>> THEN 0 ELSE log[Len(log)].from[f]]])
        /\ UNCHANGED <<done, start, mask>>
Finish == /\ ~done /\ Len(log) = MaxCalls /\ done' = TRUE
          /\ CSVWrite("%1$s", <<ToJson([start |-> start, mask |-> mask, calls |-> log])>>, OutFile)
          /\ UNCHANGED <<fs, log, start, mask>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars

Last == log[Len(log)]
\* nothing is lost: what a file holds is the last successful encoding for it, or what it held
Holds == \A f \in Files : LET S == {i \in 1..Len(log) : log[i].path = f /\ log[i].ok} IN
           fs[f] = IF S = {} THEN start[f] ELSE Octets(log[CHOOSE i \in S : \A j \in S : j <= i].val)
\* the log says where the contents come from
From == log # <<>> => \A f \in Files : fs[f] = IF Last.from[f] = 0 THEN start[f] ELSE log[Last.from[f]].der
\* a failed call changes nothing, and no call changes two files
Calm == [][(Len(log') > Len(log) /\ ~log'[Len(log')].ok) => fs' = fs]_vars
\* a created file has what was asked for but for what is masked
Within == \A i \in 1..Len(log) : log[i].created > 0 => \A b \in 0..8 : Bit(log[i].created, b) = (IF Bit(mask, b) = 1 THEN 0 ELSE Bit(log[i].mode, b))
\* a file is created once
CreatedOnce == \A f \in Files : Cardinality({i \in 1..Len(log) : log[i].path = f /\ log[i].created > 0}) <= IF start[f] = Absent THEN 1 ELSE 0
OneFile == [][Cardinality({f \in Files : fs'[f] # fs[f]}) <= 1]_vars
=============================================================================
