------------------------------- MODULE Lookup -------------------------------
(* Looking up assignments by name.  A module's assignments are written down one
   by one; then names are asked for, in any order and any number of times, and
   what was returned may be changed by the caller in between.  The module never
   changes after it is written.                                               *)
EXTENDS Lexemes, FiniteSets, CSV, Json

CONSTANTS MaxLen,      \* assignments
          MaxAsks,     \* questions per history; 0: every question once
          Fills,       \* how many other assignments may be written at once
          OutFile

\* <<kind, name, whether the notation allows it>>: some names differ in case, some begin others,
\* and in modules built by hand a type and a value may have one name
Entries == {<<"type", "A", TRUE>>, <<"type", "A-b", TRUE>>, <<"value", "a", TRUE>>, <<"value", "a-B", TRUE>>,
            <<"type", "a", FALSE>>, <<"value", "A", FALSE>>}
\* others: types and values by turns, some names twice
Filler(i) == IF i % 2 = 1 THEN <<"type", "Fill-" \o ToString(i % 89), TRUE>> ELSE <<"value", "fill-" \o ToString(i), TRUE>>
Asked == (IF Fills = {} THEN <<>> ELSE <<"Fill-1", "Fill-3", "Fill-51", "fill-2", "fill-64", "fill-128", "fill-256", "fill-258", "Fill-2", "fill-1">>) \o <<"A", "a", "A-b", "a-B", "A-B", "B", "", "Aa", "A-">>
Ops == <<"any", "type", "value">>

VARIABLES lst, log, ph
vars == <<lst, log, ph>>

\* what each assignment defines: different at every position
TypeAt(i) == CASE i % 4 = 0 -> [k |-> "INTEGER", nums |-> <<>>]
               [] i % 4 = 1 -> [k |-> "REF", n |-> "Other"]
               [] i % 4 = 2 -> [k |-> "TAG", cls |-> "CONTEXT", num |-> [k |-> "num", v |-> ToString(i)], mode |-> "DEFAULT", t |-> [k |-> "BOOLEAN"]]
               [] OTHER -> [k |-> "SEQ", comps |-> <<>>, adds |-> <<>>]
TypeText(i) == CASE i % 4 = 0 -> <<"INTEGER">> [] i % 4 = 1 -> <<"Other">> [] i % 4 = 2 -> <<"[", ToString(i), "]", "BOOLEAN">> [] OTHER -> <<"SEQUENCE", "{", "}">>
Node(i) == IF lst[i][1] = "type" THEN [k |-> "type", n |-> lst[i][2], t |-> TypeAt(i)]
           ELSE [k |-> "value", n |-> lst[i][2], t |-> [k |-> "INTEGER", nums |-> <<>>], v |-> [k |-> "num", v |-> ToString(i)]]
Text(i) == IF lst[i][1] = "type" THEN <<lst[i][2], "::=">> \o TypeText(i) ELSE <<lst[i][2], "INTEGER", "::=", ToString(i)>>
RECURSIVE Texts(_)
Texts(i) == IF i > Len(lst) THEN <<>> ELSE Text(i) \o Texts(i + 1)

\* the rule: the first with exactly this name; for a kind only if that one is of the kind
Found(l, n) == IF \E i \in 1..Len(l) : l[i][2] = n THEN CHOOSE i \in 1..Len(l) : l[i][2] = n /\ \A j \in 1..(i - 1) : l[j][2] # n ELSE 0
Answer(l, op, n) == LET i == Found(l, n) IN IF i > 0 /\ op # "any" /\ l[i][1] # op THEN 0 ELSE i

Init == lst = <<>> /\ log = <<>> /\ ph = "write"
Add == /\ ph = "write" /\ Len(lst) < MaxLen
       /\ \E e \in Entries : lst' = Append(lst, e)
       /\ UNCHANGED <<log, ph>>
FillUp == /\ ph = "write" /\ Len(lst) < MaxLen
          /\ \E n \in Fills : lst' = lst \o [i \in 1..n |-> Filler(i)]
          /\ UNCHANGED <<log, ph>>
Close == /\ ph = "write" /\ ph' = IF MaxAsks = 0 THEN "all" ELSE "ask"
         /\ UNCHANGED <<lst, log>>
Ask == /\ ph = "ask" /\ Len(log) < MaxAsks
       /\ \E o \in 1..3, n \in 1..Len(Asked), spoil \in BOOLEAN :
            log' = Append(log, [op |-> Ops[o], n |-> Asked[n], i |-> Answer(lst, Ops[o], Asked[n]), spoil |-> spoil])
       /\ UNCHANGED <<lst, ph>>
Every == [q \in 1..(3 * Len(Asked)) |-> LET o == Ops[1 + (q % 3)] n == Asked[1 + ((q - 1) \div 3)] IN [op |-> o, n |-> n, i |-> Answer(lst, o, n), spoil |-> q % 2 = 0]]
Emitted == CSVWrite("%1$s", <<ToJson([body |-> [i \in 1..Len(lst) |-> Node(i)], asks |-> IF ph = "all" THEN Every ELSE log,
                            toks |-> IF \A i \in 1..Len(lst) : lst[i][3] THEN <<"M", "DEFINITIONS", "::=", "BEGIN">> \o Texts(1) \o <<"END">> ELSE <<>>])>>, OutFile)
Finish == /\ ph = "all" \/ (ph = "ask" /\ Len(log) = MaxAsks)
          /\ Emitted /\ ph' = "done" /\ UNCHANGED <<lst, log>>
Next == Add \/ FillUp \/ Close \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars

\* what is found stays found while assignments are added behind it
FirstStays == [][\A k \in 1..Len(Asked) : Found(lst, Asked[k]) > 0 => Found(lst', Asked[k]) = Found(lst, Asked[k])]_vars
\* a kind's lookup finds nothing the general one does not find, and types and values exclude each other
Consistent == \A k \in 1..Len(Asked) : LET n == Asked[k] a == Answer(lst, "any", n) t == Answer(lst, "type", n) v == Answer(lst, "value", n) IN
                (t > 0 => t = a) /\ (v > 0 => v = a) /\ ~(t > 0 /\ v > 0) /\ (a > 0 => t > 0 \/ v > 0)
=============================================================================
