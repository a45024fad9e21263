------------------------------ MODULE Pipeline ------------------------------
(* From the files of one image to its counts: everything is resampled to the   *)
(* scaled size, the evaluated category's plane is taken out of the packed       *)
(* ground truth (or drawn from the label map), the prediction's border cleared, *)
(* its non-maxima suppressed, the category's own region selected, and the       *)
(* machine of Counting started on the result.                                   *)
EXTENDS Counting, Scene

VARIABLES req,    \* the request, see PipeStart
          pst,    \* "scale", "decode", "clear", "select", "suppress", "count"
          plane, pmap, mask, imap
pipeVars == <<req, pst, plane, pmap, mask, imap>>

(* req: [ds, edge, seg, inst, pred, gts, cat, sn, sd, thr, tn, td, thin, kill, skip, nms, supp, radius]  *)
(* edge holds the packed bits as one number, pred 0..255, thr thousandths, sn/sd the scale              *)
Scaled(n, r) == (2 * n * r.sn + r.sd) \div (2 * r.sd)     \* rounded, half up
Source(r) == CASE r.ds = "otf" -> r.seg [] r.ds = "bsds" -> r.pred [] OTHER -> r.edge
SizeOf(r) == IF r.ds = "bsds" THEN <<Rows(r.pred), Cols(r.pred)>> ELSE <<Scaled(Rows(Source(r)), r), Scaled(Cols(Source(r)), r)>>
Fit(img, r) == Resample(img, SizeOf(r)[1], SizeOf(r)[2])

PipeStart(r) == req = r /\ pst = "scale" /\ plane = <<>> /\ pmap = <<>> /\ mask = <<>> /\ imap = <<>>
Scale == /\ pst = "scale" /\ pst' = "decode"
         /\ plane' = IF req.ds = "bsds" THEN <<>> ELSE Fit(Source(req), req)
         /\ pmap' = Fit(req.pred, req)
         /\ mask' = IF req.kill THEN Fit(req.seg, req) ELSE <<>>
         /\ imap' = IF req.ds = "otf" /\ req.inst # <<>> THEN Fit(req.inst, req) ELSE <<>>
         /\ UNCHANGED req

BitOf(v, k) == (v \div (2 ^ k)) % 2
LabelOf(cat) == CityscapesTable[cat][1]
IgnoredLabels == {2, 3}
Drawn(lab, ins, cat, r) == SceneEdge(lab, ins, LabelOf(cat), IgnoredLabels, 24, r, FALSE)
Decode == /\ pst = "decode" /\ pst' = "clear"
          /\ plane' = CASE req.ds = "bsds" -> <<>>
                        [] req.ds = "otf" -> FromPx(Rows(plane), Cols(plane), Drawn(plane, imap, req.cat, req.radius))
                        [] OTHER -> MapImg(plane, LAMBDA v : BitOf(v, req.cat - 1))
          /\ UNCHANGED <<req, pmap, mask, imap>>
Inner(y, x, h, w, b) == y > b /\ x > b /\ y <= h - b /\ x <= w - b
Cleared(img, b) == [y \in 1..Rows(img) |-> TLCEval([x \in 1..Cols(img) |-> IF Inner(y, x, Rows(img), Cols(img), b) THEN img[y][x] ELSE 0])]
Clear == /\ pst = "clear" /\ pst' = "select"
         /\ pmap' = IF req.ds = "sbd" THEN Cleared(pmap, 5) ELSE pmap
         /\ UNCHANGED <<req, plane, mask, imap>>
OwnLabel(r) == CASE r.ds = "sbd" -> r.cat [] r.ds = "otf" -> LabelOf(r.cat) [] OTHER -> r.cat - 1
Select == /\ pst = "select" /\ pst' = "suppress"
          /\ mask' = IF req.kill THEN MapImg(mask, LAMBDA v : IF v = OwnLabel(req) THEN 1 ELSE 0) ELSE <<>>
          /\ UNCHANGED <<req, plane, pmap, imap>>
(* suppression itself is the subject of Nms; its outcome comes with the request *)
Suppress == /\ pst = "suppress" /\ pst' = "ready"
            /\ pmap' = IF req.nms THEN req.supp ELSE MapImg(pmap, LAMBDA v : v * 1000)
            /\ UNCHANGED <<req, plane, mask, imap>>
JobOf(r, pl, pm, ma) ==
  [multi |-> r.ds = "bsds", pred |-> pm, thr |-> [i \in 1..Len(r.thr) |-> IF r.nms THEN r.thr[i] * 1000 ELSE r.thr[i] * 255],
   gts |-> IF r.ds = "bsds" THEN r.gts ELSE <<pl>>, seg |-> ma, tn |-> r.tn, td |-> r.td, thin |-> r.thin, kill |-> r.kill, skip |-> r.skip,
   noseg |-> FALSE]
(* the image is evaluated as one map against one map: hand over to Counting *)
HandOver == /\ pst = "ready" /\ pst' = "count" /\ UNCHANGED <<req, plane, pmap, mask, imap>>
            /\ CountBegin(JobOf(req, plane, pmap, mask))
IdleJob == [multi |-> FALSE, pred |-> <<>>, thr |-> <<>>, gts |-> <<>>, seg |-> <<>>, tn |-> 1, td |-> 1, thin |-> FALSE, kill |-> FALSE, skip |-> FALSE,
            noseg |-> FALSE]
Idle == job = IdleJob /\ ti = 1 /\ ai = 1 /\ stage = "idle" /\ det = {} /\ recall = <<0, 0>> /\ gtsum = 0 /\ hits = {{}} /\ loose = FALSE /\ tally = <<>>
Prepare == (Scale \/ Decode \/ Clear \/ Select \/ Suppress) /\ UNCHANGED countVars
PipeNext == Prepare \/ HandOver \/ (CountNext /\ UNCHANGED pipeVars)
=============================================================================
