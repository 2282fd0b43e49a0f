--------------------------------- MODULE Api ---------------------------------
(* The library under histories of calls.  Processes parse texts, generate from
   modules parsed earlier (by whatever process), look assignments up and change
   modules they own.  A parse can be suspended between any two reads, a
   generation when it writes; other processes then go on.  Calls fail, too:
   texts that are not modules, readers and writers that break.
   The result of a call is a function of its arguments alone, and a module
   changes only when its owner changes it.                                    *)
EXTENDS Integers, Sequences, FiniteSets, CSV, Json, TLC

CONSTANTS Procs, MaxCalls,
          Gens, Mods, Bads,  \* texts: of what can be generated, of other modules, of no module
          Pieces,            \* in how many reads a text is delivered
          Params, Faults,    \* generator parameters; whether readers and writers may break
          SaltLo, SaltHi,    \* both 0: every choice; else choices are drawn
          Shared,            \* TRUE: a library with one read buffer for everybody (to see that the invariants can fail)
          OutFile

VARIABLES ses, heap, buf, log, calls, salt, written
vars == <<ses, heap, buf, log, calls, salt, written>>

Texts == Gens \cup Mods \cup Bads
IsModule(t) == t \in Gens \cup Mods
Idle == [k |-> "idle"]
None == [k |-> "none"]
Tree(t) == <<"tree", t>>
Source(m, par) == <<"source", m, par>>
Buf(p) == IF Shared THEN 1 ELSE p

Mix(n) == ((n * 7919 + 104729) % 65521)
Draw(S, k) == IF SaltHi = 0 THEN S ELSE LET q == Mix(Mix(salt) + 31 * Len(log) + k) % Cardinality(S)
                                        IN {CHOOSE x \in S : Cardinality({y \in S : y < x}) = q}

\* in simulation, what happens now and then only
Rare(k, n) == IF SaltHi = 0 THEN TRUE ELSE Mix(Mix(salt + 3) + 17 * Len(log) + k) % n = 0

Init == /\ ses = [p \in 1..Procs |-> Idle] /\ heap = <<>> /\ buf = [p \in 1..Procs |-> <<>>] /\ log = <<>> /\ calls = <<>> /\ written = FALSE
        /\ salt \in SaltLo..SaltHi
\* calls[c]: what was asked and, when it has returned, the answer.  heap[c]: the module call c returned.
Free(p) == ses[p] = Idle /\ Len(calls) < MaxCalls /\ \A q \in 1..(p - 1) : (\E i \in 1..Len(log) : log[i].p = q)
New(p, what, ev) == /\ calls' = Append(calls, what) /\ heap' = Append(heap, None)
                    /\ log' = Append(log, ev)

StartParse(p) == /\ Free(p)
                 /\ \E t \in Draw(Texts, 1), n \in Draw(Pieces, 2) :
                      /\ New(p, [op |-> "parse", t |-> t, n |-> n, ans |-> <<>>], [p |-> p, e |-> "parse", t |-> t, n |-> n])
                      /\ ses' = [ses EXCEPT ![p] = [k |-> "parse", c |-> Len(calls) + 1, left |-> n]]
                      /\ buf' = [buf EXCEPT ![Buf(p)] = IF Shared THEN @ ELSE <<>>]
                 /\ UNCHANGED <<salt, written>>
Ev(p, e) == log' = Append(log, [p |-> p, e |-> e])
Answer(c, a) == calls' = [calls EXCEPT ![c].ans = a]
Read(p) == /\ ses[p].k = "parse" /\ ses[p].left > 0
           /\ LET c == ses[p].c i == calls[c].n - ses[p].left + 1 IN
              buf' = [buf EXCEPT ![Buf(p)] = Append(@, <<calls[c].t, i>>)]
           /\ ses' = [ses EXCEPT ![p].left = @ - 1]
           /\ Ev(p, "read") /\ UNCHANGED <<heap, calls, salt, written>>
\* the end of the text: the call returns
ReadEnd(p) == /\ ses[p].k = "parse" /\ ses[p].left = 0
              /\ LET c == ses[p].c b == buf[Buf(p)]
                     whole(t, n) == b = [i \in 1..n |-> <<t, i>>]
                     t == calls[c].t
                     ok == whole(t, calls[c].n) IN
                 IF ok /\ IsModule(t) THEN Answer(c, Tree(t)) /\ heap' = [heap EXCEPT ![c] = [k |-> "module", v |-> Tree(t), owner |-> p, edited |-> FALSE]]
                 ELSE Answer(c, IF ok THEN <<"no module", t>> ELSE <<"something else", b>>) /\ heap' = heap
              /\ ses' = [ses EXCEPT ![p] = Idle]
              /\ buf' = [buf EXCEPT ![Buf(p)] = <<>>]
              /\ Ev(p, "end") /\ UNCHANGED <<salt, written>>
ReadFails(p) == /\ Faults /\ Rare(6, 12) /\ ses[p].k = "parse"
                /\ Answer(ses[p].c, <<"reader">>)
                /\ ses' = [ses EXCEPT ![p] = Idle] /\ buf' = [buf EXCEPT ![Buf(p)] = <<>>]
                /\ Ev(p, "fail") /\ UNCHANGED <<heap, salt, written>>

Live == {c \in 1..Len(heap) : heap[c] # None}
Plain == {c \in Live : ~heap[c].edited}
InUse(c) == \E p \in 1..Procs : ses[p].k = "generate" /\ calls[ses[p].c].m = c
\* a generator is made for this call or shared by everybody
StartGenerate(p) == /\ Free(p) /\ Plain # {}
                    /\ \E m \in Draw(Plain, 3), par \in Draw(Params, 4), own \in (IF SaltHi = 0 THEN {FALSE} ELSE {Mix(salt + Len(log)) % 2 = 0}) :
                         /\ New(p, [op |-> "generate", m |-> m, par |-> par, ans |-> <<>>], [p |-> p, e |-> "generate", m |-> m, par |-> par, own |-> own])
                         /\ ses' = [ses EXCEPT ![p] = [k |-> "generate", c |-> Len(calls) + 1, left |-> 0]]
                    /\ UNCHANGED <<buf, salt, written>>
Write(p) == /\ ses[p].k = "generate"
            /\ LET c == ses[p].c IN Answer(c, Source(heap[calls[c].m].v, calls[c].par))
            /\ ses' = [ses EXCEPT ![p] = Idle]
            /\ Ev(p, "write") /\ UNCHANGED <<heap, buf, salt, written>>
WriteFails(p) == /\ Faults /\ Rare(7, 5) /\ ses[p].k = "generate"
                 /\ Answer(ses[p].c, <<"writer">>)
                 /\ ses' = [ses EXCEPT ![p] = Idle]
                 /\ Ev(p, "writefail") /\ UNCHANGED <<heap, buf, salt, written>>
LookUp(p) == /\ ses[p] = Idle /\ Plain # {} /\ (IF log = <<>> THEN TRUE ELSE log[Len(log)].e # "look") /\ Rare(8, 3)
             /\ Len(calls) < MaxCalls
             /\ \E m \in Draw(Plain, 5) : log' = Append(log, [p |-> p, e |-> "look", m |-> m])
             /\ UNCHANGED <<ses, heap, buf, calls, salt, written>>
\* whoever parsed a module may change it, all of it, when nobody generates from it
Edit(p) == /\ ses[p] = Idle /\ Len(calls) < MaxCalls /\ Rare(9, 4)
           /\ \E m \in {c \in Plain : heap[c].owner = p /\ ~InUse(c)} :
                /\ heap' = [heap EXCEPT ![m].edited = TRUE, ![m].v = <<"edited", @>>]
                /\ log' = Append(log, [p |-> p, e |-> "edit", m |-> m])
           /\ UNCHANGED <<ses, buf, calls, salt, written>>
Quiet == Len(calls) = MaxCalls /\ \A p \in 1..Procs : ses[p] = Idle
Report == /\ Quiet /\ ~written /\ written' = TRUE
          /\ CSVWrite("%1$s", <<ToJson([procs |-> Procs, log |-> log])>>, OutFile)
          /\ UNCHANGED <<ses, heap, buf, log, calls, salt>>
Next == (\E p \in 1..Procs : StartParse(p) \/ Read(p) \/ ReadEnd(p) \/ ReadFails(p) \/ StartGenerate(p) \/ Write(p) \/ WriteFails(p) \/ LookUp(p) \/ Edit(p)) \/ Report
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what must hold
\* an answer depends on the arguments only
Expected(c) == IF calls[c].op = "parse" THEN {IF IsModule(calls[c].t) THEN Tree(calls[c].t) ELSE <<"no module", calls[c].t>>, <<"reader">>}
               ELSE {Source(Tree(calls[calls[c].m].t), calls[c].par), <<"writer">>}
Functional == \A c \in 1..Len(calls) : calls[c].ans # <<>> => calls[c].ans \in Expected(c)
\* a module is what its text means until its owner changes it
Unharmed == \A c \in Live : ~heap[c].edited => heap[c].v = Tree(calls[c].t)
Owned == [][\A c \in Live : heap'[c] # heap[c] => LET e == log'[Len(log')] IN e.e = "edit" /\ e.m = c /\ e.p = heap[c].owner]_vars
\* an answer once given stays
Final == [][\A c \in 1..Len(calls) : calls[c].ans # <<>> => calls'[c].ans = calls[c].ans]_vars
=============================================================================
