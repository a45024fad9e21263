------------------------------ MODULE TraceCodec ------------------------------
EXTENDS Codec, Json, IOUtils
VARIABLES tid
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Out == Case.out
TInit == tid \in 1..Len(Cases) /\ CodecStart(Cases[tid].in.planes)
N == Len(planes)
(* an observed decoding: [name, classes asked for, planes] *)
DecodedOK(d) == d.planes = Decode(word, d.n)
Failed ==
  IF Case.err # "" THEN {"raised"}
  ELSE (IF N > 24 THEN Clause("more-than-24-refused-by-rgb", Out.rgberr = "ValueError")
        ELSE Clause("rgb-layout", Out.rgberr = "" /\ Out.rgb = Rgb(word)))
       \cup UNION {Clause(Out.words[i][1], Out.words[i][2] = word) : i \in 1..Len(Out.words)}
       \cup UNION {Clause(Out.decoded[i].name, DecodedOK(Out.decoded[i])) : i \in 1..Len(Out.decoded)}
       \cup Clause("collapsed-binary", Out.any = Collapsed(planes))
       \cup Clause("input-kept", Out.kept)
Return == /\ stage = "done" /\ stage' = "returned"
          /\ \E F \in {Failed} : IF F = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
                                 ELSE \A c \in F : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<planes, k, word, tid>>
TSpec == TInit /\ [][(CodecNext /\ UNCHANGED tid) \/ Return]_<<codecVars, tid>>
=============================================================================
