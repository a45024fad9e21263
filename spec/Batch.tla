-------------------------------- MODULE Batch --------------------------------
(* Suppressing whole folders of results: one picture per input and model,      *)
(* pictures that exist already are left alone, an interrupted run is resumed   *)
(* by the next one.  Contents are numbers: i > 0 is the suppressed i-th input, *)
(* a negative number is what was there before.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES inputs,   \* set of [name, ext, id]: the folder of results
          saved,    \* path -> content
          run,      \* the run in progress: [kind, models, ext] or "idle"
          pending   \* <<model, input>> pairs the run has still to visit
batchVars == <<inputs, saved, run, pending>>
Idle == [kind |-> "idle", models |-> {}, ext |-> ""]
(* a run over one folder writes next to nothing else; a run over models makes a folder of each *)
PathOf(m, f) == IF m = "" THEN f.name \o ".png" ELSE m \o "/" \o f.name \o ".png"
Taken(r, ins) == IF r.kind = "folder" THEN {""} \X ins ELSE r.models \X {f \in ins : f.ext = r.ext}
Put(s, p, v) == [q \in DOMAIN s \cup {p} |-> IF q = p THEN v ELSE s[q]]
BatchStart(ins, before) == inputs = ins /\ saved = before /\ run = Idle /\ pending = {}
Begin(r) == run = Idle /\ run' = r /\ pending' = Taken(r, inputs) /\ UNCHANGED <<inputs, saved>>
Visit(t) == /\ run # Idle /\ t \in pending /\ pending' = pending \ {t}
            /\ saved' = IF PathOf(t[1], t[2]) \in DOMAIN saved THEN saved ELSE Put(saved, PathOf(t[1], t[2]), t[2].id)
            /\ UNCHANGED <<inputs, run>>
End == run # Idle /\ pending = {} /\ run' = Idle /\ UNCHANGED <<inputs, saved, pending>>
(* an input that cannot be read ends the run where it is *)
Abort == run # Idle /\ pending # {} /\ run' = Idle /\ pending' = {} /\ UNCHANGED <<inputs, saved>>
Add(f) == run = Idle /\ f \notin inputs /\ inputs' = inputs \cup {f} /\ UNCHANGED <<saved, run, pending>>
=============================================================================
