--------------------------- MODULE ValidatorEnum ---------------------------
(* Loading of checked packages as the engine does it: files are put into    *)
(* packages, a package is checked file by file in any order, and loaded if    *)
(* all are clean.  packages.json: slots, each a sequence of options, an       *)
(* option being a sequence of files.                                          *)
EXTENDS Validator, Json
D == JsonDeserialize("packages.json")
VARIABLES pick, phase, read, ran
vars == <<pick, phase, read, ran>>
RECURSIVE Gather(_)
Gather(i) == IF i > Len(pick) THEN <<>> ELSE D.slots[i][pick[i]] \o Gather(i + 1)
Pkg == Gather(1)
Checked == {i \in 1..Len(Pkg) : Pkg[i].at[1] # "data"}
Init == pick = <<>> /\ phase = "build" /\ read = {} /\ ran = {}
Build == /\ phase = "build" /\ Len(pick) < Len(D.slots)
         /\ \E i \in 1..Len(D.slots[Len(pick) + 1]) : pick' = Append(pick, i)
         /\ UNCHANGED <<phase, read, ran>>
Ask == /\ phase = "build" /\ Len(pick) = Len(D.slots) /\ phase' = "check"
       /\ PrintT("@@ " \o ToJson([p |-> pick, ok |-> Admitted(Pkg)]))
       /\ UNCHANGED <<pick, read, ran>>
\* the order of reading does not matter: the least unread file is as good as any
Read == /\ phase = "check" /\ Checked # read
        /\ LET i == CHOOSE i \in Checked \ read : \A j \in Checked \ read : i <= j IN
             IF CleanFile(Pkg[i]) THEN read' = read \cup {i} /\ phase' = phase
             ELSE read' = read /\ phase' = "refused"
        /\ UNCHANGED <<pick, ran>>
Load == /\ phase = "check" /\ read = Checked /\ phase' = "loaded"
        /\ ran' = Checked /\ UNCHANGED <<pick, read>>
Next == Build \/ Ask \/ Read \/ Load
Spec == Init /\ [][Next]_vars
\* nothing unread or unclean ever runs
Contained == ran # {} => \A i \in 1..Len(Pkg) : i \in ran => i \in read /\ CleanFile(Pkg[i])
Decided == (phase = "refused" => ~Admitted(Pkg)) /\ (phase = "loaded" => Admitted(Pkg))
=============================================================================
