------------------------ MODULE TraceCorrespondence -------------------------
(* Validates recorded correspond_pixels calls.                                *)
EXTENDS Correspondence, Json, TLC, IOUtils
CONSTANT Which     \* "valid" (C01) or "optimal" (C02)
VARIABLES tid, stage
vars == <<corrVars, tid, stage>>
Cases == ndJsonDeserialize(IOEnv.TRACE)

Case == Cases[tid]
In == Case.in
Out == Case.out
H == Rows(In.a)
W == Cols(In.a)
Refuse == ~SameShape(In.a, In.b) \/ In.tn <= 0 \/ In.of2 <= 2
Small == Cardinality(Matchable1(elig)) <= 7 /\ Cardinality(right) <= 7

TInit ==
  /\ tid \in 1..Len(Cases)
  /\ stage = "call"
  /\ elig = {} /\ todo = {} /\ right = {} /\ ow = 0 /\ best = <<>>

Call ==
  /\ stage = "call"
  /\ stage' = "solve"
  /\ UNCHANGED tid
  /\ IF Refuse \/ Case.err # "" THEN UNCHANGED corrVars
     ELSE LET A == Px(In.a)
              B == Px(In.b)
              E == Eligible(A, B, In.tn, In.td, H, W)
              L == Matchable1(E)
              R == Matchable2(E)
          IN /\ elig' = E
             /\ right' = R
             /\ ow' = OutlierCenti(In.of2, In.tn, In.td, H, W)
             /\ IF Which = "optimal" /\ Cardinality(L) <= 7 /\ Cardinality(R) <= 7
                THEN todo' = L /\ best' = [S \in SUBSET R |-> 0]
                ELSE todo' = {} /\ best' = <<>>

Solve ==
  /\ stage = "solve" /\ todo # {}
  /\ Consider(CHOOSE p \in todo : TRUE)
  /\ UNCHANGED <<tid, stage>>

(* decode a reported partner: 1-based column-major pixel number *)
Partner(v) == <<((v - 1) % H) + 1, ((v - 1) \div H) + 1>>
InImage(v) == v >= 0 /\ v <= H * W

Pairs == {<<p, Partner(Out.o0[p[1]][p[2]])>> : p \in Px(Out.o0)}

ValidClauses ==
  IF Refuse THEN Clause("refused", Case.err = "ValueError")
  ELSE IF Case.err # "" THEN {"raised"}
  ELSE IF ~(SameShape(Out.o0, In.a) /\ SameShape(Out.o1, In.a)) THEN {"shape"}
  ELSE IF \E p \in Cell(In.a) : ~InImage(Out.o0[p[1]][p[2]]) \/ ~InImage(Out.o1[p[1]][p[2]])
       THEN {"partner-in-image"}
  ELSE Clause("joins-edge-pixels-within-tolerance", Pairs \subseteq elig)
       \cup Clause("one-to-one", \A e, f \in Pairs : e[2] = f[2] => e = f)
       \cup Clause("reciprocal", {<<Partner(Out.o1[p[1]][p[2]]), p>> : p \in Px(Out.o1)} = Pairs)
       \cup Clause("outlier-cost", Abs(Out.ocm - OutlierMilli(In.of2, In.tn, In.td, H, W)) <= 2 + In.of2 \div 2)
       \cup Clause("input-kept", Out.kept)

(* unmatched edge pixels cost one outlier each, a pair half its length per side *)
ExpectCost ==
  IF elig = {} THEN 0
  ELSE (Cardinality(Px(In.a)) + Cardinality(Px(In.b)) - 2 * Cardinality(Pairs)) * Out.ocm
       + SumOver(Pairs, [e \in Pairs |-> Milli(D2(e[1], e[2]))])

Bound == Cardinality({<<c[1], c[2]>> : c \in {In.c1[i] : i \in 1..Len(In.c1)}})
         + Cardinality({<<c[1], c[2]>> : c \in {In.c2[i] : i \in 1..Len(In.c2)}})
CoverOK == LET C1 == {<<In.c1[i][1], In.c1[i][2]>> : i \in 1..Len(In.c1)}
               C2 == {<<In.c2[i][1], In.c2[i][2]>> : i \in 1..Len(In.c2)}
           IN IsCover(C1, C2, elig)

OptimalClauses ==
  IF Refuse \/ Case.err # "" THEN Clause("raised", Refuse)
  ELSE IF \E p \in Cell(In.a) : ~InImage(Out.o0[p[1]][p[2]]) THEN {"partner-in-image"}
  ELSE (IF Small
        THEN LET D == SumOver(Pairs, [e \in Pairs |-> Centi(D2(e[1], e[2]))])
             IN Clause("most-pairs", In.of2 < 16 \/ Cardinality(Pairs) = MaxPairs(elig))
                \cup Clause("least-total-distance", D - Cardinality(Pairs) * ow = Optimum)
        ELSE Clause("cover-certificate", CoverOK)
             \cup Clause("near-most-pairs", Cardinality(Pairs) <= Bound /\ Bound - Cardinality(Pairs) <= 3 + Bound \div 20))
       \cup Clause("cost", Abs(Out.costm - ExpectCost)
                     <= 2 + Cardinality(Px(In.a)) + Cardinality(Px(In.b)))

Failed == IF Which = "valid" THEN ValidClauses ELSE OptimalClauses

Return ==
  /\ stage = "solve" /\ todo = {}
  /\ stage' = "returned"
  /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
     ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
  /\ UNCHANGED <<corrVars, tid>>

TNext == Call \/ Solve \/ Return
TSpec == TInit /\ [][TNext]_vars
=============================================================================
