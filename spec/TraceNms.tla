------------------------------ MODULE TraceNms ------------------------------
(* Validates recorded nms / fast_nms / conv_tri calls.                        *)
EXTENDS Nms, Json, TLC, IOUtils
VARIABLES tid, smooth, range
vars == <<nmsVars, tid, smooth, range>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
In == Case.in
Out == Case.out
H == Rows(In.img)
W == Cols(In.img)

TInit == /\ tid \in 1..Len(Cases) /\ stage = "call"
         /\ strength = <<>> /\ dirs = <<>> /\ kept = <<>> /\ smooth = 1 /\ range = 0

(* smoothing is a step of its own: strengths are then scaled by 16 *)
Call == /\ stage = "call"
        /\ IF In.fn = "fast"
           THEN /\ strength' = ConvTri(In.img, 1) /\ dirs' = <<>> /\ stage' = "orient" /\ smooth' = 16
           ELSE /\ strength' = In.img /\ dirs' = IF In.fn = "nms" THEN In.dirs ELSE <<>>
                /\ stage' = "measure" /\ smooth' = 1
        /\ UNCHANGED <<kept, tid, range>>

(* <<tangent numerator, denominator>> of every pixel; <<0,0>> when undecided *)
Orient ==
  /\ stage = "orient" /\ stage' = "measure"
  /\ \E c \in {ConvTri(strength, 4)} : \E oxx \in {GradX(GradX(c))}, oxy \in {GradX(GradY(c))}, oyy \in {GradY(GradY(c))} :
     dirs' = [y \in 1..H |-> [x \in 1..W |->
                   IF oxx[y][x] = 0 \/ oxy[y][x] = 0 THEN <<0, 0>>
                   \* in single precision only pronounced curvature decides
                   ELSE IF In.single /\ (Abs(oxy[y][x]) < 2000 \/ Abs(oxx[y][x]) + Abs(oyy[y][x]) < 200000) THEN <<0, 0>>
                   ELSE Direction(-oyy[y][x] * Sgn(oxy[y][x]), oxx[y][x])]]
  /\ UNCHANGED <<strength, kept, tid, smooth, range>>

(* the spread of the strengths bounds the effect of rounding a direction *)
Measure ==
  /\ stage = "measure" /\ stage' = "ready"
  /\ LET V == {strength[p[1]][p[2]] : p \in Cell(strength)}
         hi == CHOOSE v \in V : \A u \in V : u <= v
         lo == CHOOSE v \in V : \A u \in V : u >= v
     IN range' = IF V = {} THEN 0 ELSE hi - lo
  /\ UNCHANGED <<strength, dirs, kept, tid, smooth>>

(* rounding of the specification's own arithmetic, zero where it is exact *)
Slack(p, d) ==
  IF In.fn = "fast" THEN (2 * Abs(d) + 2) * P * range + 10
  ELSE IF ~In.exact THEN (Abs(d) * P + 300) * range + 10
  ELSE IF In.sharp /\ dirs[p[1]][p[2]] = <<P, 0>> /\ p[1] < H /\ p[2] - 1 + d <= W - 2 THEN 0
  ELSE 10

Num(p) == FadeNum(p, H, W, FadeWidth(In.s, H, W))
Den == FadeDen(FadeWidth(In.s, H, W))

(* observed value equals the (faded) strength of p / equals zero *)
IsStrength(p) ==
  LET o == Out.img[p[1]][p[2]]  e == strength[p[1]][p[2]] IN
  IF In.fn = "nms" THEN Abs(o * Den - e * Num(p) * 10000) <= Den
  ELSE IF In.u8 THEN Abs(o * 16 * Den - Min2(e * Num(p), 255 * 16 * Den)) <= 8 * Den + 1
  ELSE Abs(o * Den - e * Num(p) * 100) <= 3 * Den
IsZero(p) == Out.img[p[1]][p[2]] = 0

PixelOK(p) ==
  LET f == IF dirs[p[1]][p[2]] = <<0, 0>> THEN "either"
           ELSE Fate(strength, p, dirs[p[1]][p[2]], In.r, In.mP, LAMBDA d : Slack(p, d))
  IN \/ f # "drop" /\ IsStrength(p)
     \/ f # "keep" /\ IsZero(p)

ConvOK == Out.img = IF In.r = 0 THEN In.img ELSE ConvTri(In.img, In.r)

Failed ==
  IF In.fn = "mismatch" THEN Clause("refused", Case.err = "ValueError")
  ELSE IF Case.err # "" THEN {"raised"}
  ELSE IF ~SameShape(Out.img, In.img) THEN {"shape"}
  ELSE Clause("input-kept", Out.kept)
       \cup (IF In.fn = "conv" THEN Clause("triangle-filter", ConvOK)
             ELSE Clause("suppression", \A p \in Cell(In.img) : PixelOK(p)))
       \cup (IF In.fn = "fast" THEN Clause("output-type", Out.isu8 = In.u8) ELSE {})

Return ==
  /\ stage = "ready"
  /\ stage' = "returned"
  /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
     ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
  /\ UNCHANGED <<strength, dirs, kept, tid, smooth, range>>
TNext == Call \/ Orient \/ Measure \/ Return
TSpec == TInit /\ [][TNext]_vars
=============================================================================
