--------------------------------- MODULE Cli ---------------------------------
(* The asn1go command.  A world (files, standard input, where standard output
   goes) and a command line are chosen; then the command reads its arguments
   one by one, opens its input and output, reads, and generates.  Every step can
   fail; the command then ends with a message and without source.             *)
EXTENDS Integers, Sequences, FiniteSets, CSV, Json, TLC

CONSTANTS MaxArgs,          \* tokens on the command line
          Tokens,           \* which
          Ins, Stdins, Outs, Stdouts,   \* worlds
          OutFile

VARIABLES args, rest, world, pkg, repr, names, ph, res
vars == <<args, rest, world, pkg, repr, names, ph, res>>

(* inputs:  plain (no integers), ints, values, broken (no module), odd (nothing can be
   generated), percent (an error message with a percent sign), missing, dir, huge, empty *)
Contents == {"plain", "ints", "values", "broken", "odd", "percent", "huge", "empty", "tail", "lateodd"}
Parses(c) == c \in {"plain", "ints", "values", "odd", "huge", "lateodd"}
Odd(c) == c \in {"odd", "lateodd"}
UsesInt(c) == c \in {"ints", "values", "huge", "lateodd"}
\* tail: a module and more after it; lateodd: a long module of which only the last assignment cannot be generated
\* outputs: absent, old (other content, longer than any source here), short, dir, noparent, full
Writable(o) == o \in {"absent", "old", "short"}

Init == /\ args = <<>> /\ rest = <<>> /\ pkg = "" /\ repr = "int64" /\ names = <<>> /\ ph = "args" /\ res = "none"
        /\ world \in [in : Ins, stdin : Stdins, out : Outs, stdout : Stdouts]
Arg == /\ ph = "args" /\ Len(args) < MaxArgs
       /\ \E t \in Tokens : args' = Append(args, t)
       /\ UNCHANGED <<rest, world, pkg, repr, names, ph, res>>
Run == /\ ph = "args" /\ ph' = "flags" /\ rest' = args
       /\ UNCHANGED <<args, world, pkg, repr, names, res>>
Fail(why) == ph' = "end" /\ res' = why
Goto(p) == ph' = p /\ res' = res

\* flags come first; -- ends them; one or two hyphens; a value follows as = or as the next argument
Bare == [t \in {"-package", "--package"} |-> "pkg"] @@ [t \in {"-default-integer-repr", "--default-integer-repr"} |-> "repr"]
Pkgs == {"other", "p", "", "snake_case2", "Upper"}
Reprs == {"int64", "big.Int", "weird", "", "Int64", "BIG.INT", "math/big.Int", "*big.Int", "int", "int64 ", "bigint"}
Hyphens == {"-", "--"}
WithPkg == {<<h, x>> : h \in Hyphens, x \in Pkgs}
WithRepr == {<<h, x>> : h \in Hyphens, x \in Reprs}
PkgToken(y) == y[1] \o "package=" \o y[2]
ReprToken(y) == y[1] \o "default-integer-repr=" \o y[2]
Valued == [t \in {PkgToken(y) : y \in WithPkg} |-> LET y == CHOOSE y \in WithPkg : PkgToken(y) = t IN <<"pkg", y[2]>>]
       @@ [t \in {ReprToken(y) : y \in WithRepr} |-> LET y == CHOOSE y \in WithRepr : ReprToken(y) = t IN <<"repr", y[2]>>]
Unknown == {"-unknown", "--unknown=1", "-Package=p", "-packages=p", "-integer-repr=int64"}
IsFlag(t) == t \in DOMAIN Bare \cup DOMAIN Valued \cup Unknown
Set(what, x) == pkg' = (IF what = "pkg" THEN x ELSE pkg) /\ repr' = (IF what = "repr" THEN x ELSE repr)
Flags ==
  /\ ph = "flags"
  /\ IF rest = <<>> \/ (~IsFlag(rest[1]) /\ rest[1] # "--") THEN Goto("names") /\ UNCHANGED <<rest, pkg, repr>>
     ELSE LET t == rest[1] IN
       IF t = "--" THEN Goto("names") /\ rest' = Tail(rest) /\ UNCHANGED <<pkg, repr>>
       ELSE IF t \in Unknown THEN Fail("usage") /\ UNCHANGED <<rest, pkg, repr>>
       ELSE IF t \in DOMAIN Bare
            THEN IF Len(rest) = 1 THEN Fail("usage") /\ UNCHANGED <<rest, pkg, repr>>
                 ELSE Goto("flags") /\ rest' = Tail(Tail(rest)) /\ Set(Bare[t], rest[2])
       ELSE Goto("flags") /\ rest' = Tail(rest) /\ Set(Valued[t][1], Valued[t][2])
  /\ UNCHANGED <<args, world, names>>
Names == /\ ph = "names" /\ names' = rest
         /\ IF Len(rest) > 2 THEN Fail("usage") ELSE Goto("input")
         /\ UNCHANGED <<args, rest, world, pkg, repr>>
\* what a name on the command line stands for in this world
Source == IF names = <<>> THEN world.stdin ELSE IF names[1] = "in.asn1" THEN world.in ELSE "missing"
Dest == IF Len(names) < 2 THEN "stdout" ELSE names[2]
CanOpenOut == Dest = "stdout" \/ Dest # "out.go" \/ world.out \notin {"dir", "noparent"}
Input == /\ ph = "input"
         /\ IF Source = "missing" THEN Fail("input") ELSE Goto("output")
         /\ UNCHANGED <<args, rest, world, pkg, repr, names>>
Output == /\ ph = "output"
          /\ IF CanOpenOut THEN Goto("parse") ELSE Fail("output")
          /\ UNCHANGED <<args, rest, world, pkg, repr, names>>
Parse == /\ ph = "parse"
         /\ IF Source = "dir" THEN Fail("read") ELSE IF ~Parses(Source) THEN Fail("parse") ELSE Goto("generate")
         /\ UNCHANGED <<args, rest, world, pkg, repr, names>>
\* no name at all stands for int64
KnownRepr == repr \in {"int64", "big.Int", ""}
Generate == /\ ph = "generate"
            /\ IF Odd(Source) \/ (UsesInt(Source) /\ ~KnownRepr) THEN Fail("generate") ELSE Goto("write")
            /\ UNCHANGED <<args, rest, world, pkg, repr, names>>
WriteOut == /\ ph = "write"
            /\ IF (Dest = "stdout" /\ world.stdout = "full") \/ (Dest = "out.go" /\ world.out = "full") THEN Fail("write") ELSE ph' = "end" /\ res' = "done"
            /\ UNCHANGED <<args, rest, world, pkg, repr, names>>
\* a package name the generator has no word for, names that would be files of their own: not judged
OutNames == {"out.go", "in.asn1.go", "out"}    \* the others than out.go do not exist before
Judged == /\ pkg \in Pkgs \cup {"custom"}
          /\ (Len(names) = 2 => names[2] \in OutNames)
          /\ (names # <<>> => names[1] \notin OutNames)
Report == /\ ph = "end" /\ ph' = "reported"
          /\ IF Judged THEN CSVWrite("%1$s", <<ToJson([args |-> args, world |-> world, pkg |-> pkg, repr |-> repr, src |-> IF Len(names) > 2 THEN "" ELSE Source,
                                                       stdin |-> names = <<>>, dest |-> IF ph = "end" /\ res = "usage" THEN "" ELSE Dest, res |-> res])>>, OutFile)
             ELSE TRUE
          /\ UNCHANGED <<args, rest, world, pkg, repr, names, res>>
Next == Arg \/ Run \/ Flags \/ Names \/ Input \/ Output \/ Parse \/ Generate \/ WriteOut \/ Report
Spec == Init /\ [][Next]_vars

\* the command ends in one of two ways, and a failure is never forgotten
Ends == ph = "end" => res # "none"
Once == [][res # "none" => res' = res]_vars
OnlyIfPossible == res = "done" => /\ Parses(Source) /\ Len(names) <= 2 /\ (UsesInt(Source) => KnownRepr) /\ Source \notin {"missing", "dir"} /\ ~Odd(Source)
=============================================================================
