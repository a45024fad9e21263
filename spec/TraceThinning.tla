---------------------------- MODULE TraceThinning ---------------------------
(* Validates recorded thinning calls: the specification's passes are the     *)
(* silent steps between call and return.                                     *)
EXTENDS Thinning, Json, TLC, IOUtils
VARIABLE tid
vars == <<thinVars, tid>>
Cases == ndJsonDeserialize(IOEnv.TRACE)

Case == Cases[tid]
(* the morphological routine insists on 0/1 values and on limits of at least 1 *)
Fine(c) == /\ c.ndim = 2
           /\ c.fn = "bwm" => /\ c.limit = -1 \/ c.limit > 0
                              /\ \A y \in 1..Len(c.img) : \A x \in 1..Len(c.img[y]) : c.img[y][x] \in {0, 1}

TInit == /\ tid \in 1..Len(Cases)
         /\ IF Fine(Cases[tid].in)
            THEN ThinStart(Cases[tid].in.img, Cases[tid].in.limit)
            ELSE img = <<>> /\ phase = "done" /\ iters = 0 /\ changed = FALSE /\ limit = -1

Failed ==
  IF Case.in.ndim # 2 THEN Clause("non-2d-refused", Case.err = "ValueError")
  ELSE IF ~Fine(Case.in) THEN Clause("morphological-refused", Case.err = "ValueError")
  ELSE IF Case.err # "" THEN {"raised"}
  ELSE Clause("shape", SameShape(Case.out.img, img))
       \cup Clause("result", Case.out.img = img)
       \cup Clause("boolean-result", Case.out.isbool \/ Case.in.limit = 0)
       \cup Clause("input-kept", Case.out.kept)

Return ==
  /\ phase = "done"
  /\ phase' = "returned"
  /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
     ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
  /\ UNCHANGED <<img, iters, changed, limit, tid>>

TNext == (ThinNext /\ UNCHANGED tid) \/ Return
TSpec == TInit /\ [][TNext]_vars
=============================================================================
