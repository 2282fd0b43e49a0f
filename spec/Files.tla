-------------------------------- MODULE Files --------------------------------
(* Who holds which file.  ParseFile and MarshalToFile open a file, use it and
   close it, however they end; ParseStream and Generate use a file they are
   given, which stays open and the caller's.  So a process that calls them any
   number of times holds no more files than its own, and can go on with those. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, CSV, Json, TLC

CONSTANTS MaxSteps,      \* of a history
          Given,         \* how many files the caller holds at most
          Leaky,         \* TRUE: a library that keeps the files it failed on (to see that the invariants can fail)
          OutFile

VARIABLES held,          \* the caller's files: what they are, and how much of them is read
          lib,           \* files the library has open
          cur,           \* the call under way
          log, written
vars == <<held, lib, cur, log, written>>

Sources == <<"module", "other", "big", "empty", "directory", "missing">>
IsModule(s) == s \in {"module", "big"}
Targets == <<"new", "old", "directory", "missing", "full">>
Idle == [op |-> "idle"]
Entry(op, s, id, ok) == [op |-> op, s |-> s, id |-> id, ok |-> ok]
Log(e, n) == log' = Append(log, e @@ [open |-> n])

Init == /\ held = [i \in 1..Given |-> [k |-> "none"]] /\ lib = {} /\ cur = Idle /\ log = <<>> /\ written = FALSE
Mine == {i \in 1..Given : held[i].k # "none"}
Free == cur = Idle /\ Len(log) < MaxSteps
Same == UNCHANGED written

\* ------------------------------------------------- the library's own files
Call == /\ Free
        /\ \/ \E s \in {Sources[i] : i \in 1..Len(Sources)} : cur' = [op |-> "parse", s |-> s, at |-> "open", ok |-> FALSE]
           \/ \E s \in {Targets[i] : i \in 1..Len(Targets)}, good \in {TRUE, FALSE} :
                cur' = [op |-> IF good THEN "marshal" ELSE "marshalbad", s |-> s, at |-> IF good THEN "open" ELSE "return", ok |-> FALSE]
        /\ UNCHANGED <<held, lib, log>> /\ Same
Opens(c) == IF c.op = "parse" THEN c.s # "missing" ELSE c.s \in {"new", "old", "full"}
Works(c) == IF c.op = "parse" THEN IsModule(c.s) ELSE c.s # "full"
Open == /\ cur # Idle /\ cur.at = "open"
        /\ IF Opens(cur) THEN lib' = {<<cur.op, cur.s>>} \cup lib /\ cur' = [cur EXCEPT !.at = "use"]
                         ELSE lib' = lib /\ cur' = [cur EXCEPT !.at = "return"]
        /\ UNCHANGED <<held, log>> /\ Same
Use == /\ cur # Idle /\ cur.at = "use" /\ cur' = [cur EXCEPT !.at = "close", !.ok = Works(cur)]
       /\ UNCHANGED <<held, lib, log>> /\ Same
Close == /\ cur # Idle /\ cur.at = "close" /\ lib' = (IF Leaky /\ ~cur.ok THEN lib ELSE lib \ {<<cur.op, cur.s>>}) /\ cur' = [cur EXCEPT !.at = "return"]
         /\ UNCHANGED <<held, log>> /\ Same
Return == /\ cur # Idle /\ cur.at = "return" /\ cur' = Idle
          /\ Log(Entry(cur.op, cur.s, 0, cur.ok), Cardinality(Mine) + Cardinality(lib))
          /\ UNCHANGED <<held, lib>> /\ Same
\* ------------------------------------------------- the caller's files
Take == /\ Free
        /\ \E i \in 1..Given : /\ held[i].k = "none"
             /\ \E s \in {"module", "other", "big", "empty", "output"} :
                  /\ held' = [held EXCEPT ![i] = [k |-> s, read |-> FALSE]]
                  /\ Log(Entry("take", s, i, TRUE), Cardinality(Mine) + 1)
        /\ UNCHANGED <<lib, cur>> /\ Same
Give == /\ Free
        /\ \E i \in Mine :
             IF held[i].k = "output"
             THEN \E good \in {TRUE, FALSE} : Log(Entry(IF good THEN "generate" ELSE "generatebad", "output", i, good), Cardinality(Mine)) /\ held' = held
             \* what was read before is not there any more
             ELSE /\ Log(Entry("stream", held[i].k, i, IsModule(held[i].k) /\ ~held[i].read), Cardinality(Mine))
                  /\ held' = [held EXCEPT ![i].read = TRUE]
        /\ UNCHANGED <<lib, cur>> /\ Same
Rewind == /\ Free
          /\ \E i \in {i \in Mine : held[i].k # "output"} :
               held[i].read /\ held' = [held EXCEPT ![i].read = FALSE] /\ Log(Entry("rewind", held[i].k, i, TRUE), Cardinality(Mine))
          /\ UNCHANGED <<lib, cur>> /\ Same
Drop == /\ Free
        /\ \E i \in Mine : held' = [held EXCEPT ![i] = [k |-> "none"]] /\ Log(Entry("drop", held[i].k, i, TRUE), Cardinality(Mine) - 1)
        /\ UNCHANGED <<lib, cur>> /\ Same
Report == /\ cur = Idle /\ Len(log) = MaxSteps /\ ~written /\ written' = TRUE
          /\ CSVWrite("%1$s", <<ToJson([steps |-> log])>>, OutFile)
          /\ UNCHANGED <<held, lib, cur, log>>
Next == Call \/ Open \/ Use \/ Close \/ Return \/ Take \/ Give \/ Rewind \/ Drop \/ Report
Spec == Init /\ [][Next]_vars

\* between calls the library holds nothing, during one at most the file it was named
Returned == cur = Idle => lib = {}
OneAtATime == Cardinality(lib) <= 1
\* only the caller opens and closes what is the caller's
Owned == [][Mine' # Mine => Len(log') > Len(log) /\ log'[Len(log')].op \in {"take", "drop"}]_vars
\* a file is used before it is closed, and an answer comes after that
Answered == cur # Idle /\ cur.ok => cur.at \in {"close", "return"}
=============================================================================
