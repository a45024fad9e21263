----------------------------- MODULE TraceLabels -----------------------------
EXTENDS Labels, Json, IOUtils
VARIABLES tid, stage
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Out == Case.out
Dummy == [kind |-> "border", img |-> <<<<0>>>>, width |-> 0, id |-> 0]
TInit == /\ tid \in 1..Len(Cases) /\ stage = "run"
         /\ LabelStart(IF Cases[tid].in.kind = "tables" THEN Dummy ELSE Cases[tid].in)
TablesFailed ==
  Clause("cityscapes-table", {Out.cs_table[q] : q \in 1..Len(Out.cs_table)} = {CityscapesTable[q] : q \in 1..19} /\ Len(Out.cs_table) = 19)
  \cup Clause("cityscapes-names", Out.cs_names = CityscapesNames)
  \cup Clause("cityscapes-instances", Out.cs_inst = CityscapesInst)
  \cup Clause("cityscapes-labels", Out.cs_labels = CityscapesLabels)
  \cup Clause("sbd-table", {Out.sbd_table[q] : q \in 1..Len(Out.sbd_table)} = {SbdTable[q] : q \in 1..20} /\ Len(Out.sbd_table) = 20)
  \cup Clause("sbd-names", Out.sbd_names = SbdNames)
  \cup Clause("sbd-instances", Out.sbd_inst = SbdInst)
  \cup Clause("sbd-labels", Out.sbd_labels = SbdLabels)
Failed ==
  IF Case.err # "" THEN {"raised"}
  ELSE IF Case.in.kind = "tables" THEN TablesFailed
  ELSE Clause(Case.in.kind \o "-result", Out.res = acc) \cup Clause(Case.in.kind \o "-type", Out.dt \in {"uint8", "int32"} /\ (job.kind = "number" => Out.dt = "int32"))
       \cup Clause(Case.in.kind \o "-input-kept", Out.kept)
Return == /\ stage = "run" /\ Converted /\ stage' = "returned"
          /\ \E F \in {Failed} : IF F = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
                                 ELSE \A c \in F : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<labelVars, tid>>
TSpec == TInit /\ [][(stage = "run" /\ LabelNext /\ UNCHANGED <<tid, stage>>) \/ Return]_<<labelVars, tid, stage>>
=============================================================================
