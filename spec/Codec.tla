-------------------------------- MODULE Codec --------------------------------
(* Multi-label edges packed in bytes: class k (from 0) is bit k mod 8 of byte   *)
(* k div 8.  The three-byte form is the RGB image (byte 0 blue, 1 green, 2 red), *)
(* the four-byte form the 32-bit word (little end first).  Classes are added     *)
(* one after the other.                                                          *)
EXTENDS Grid
VARIABLES planes,   \* sequence of binary planes
          k,        \* classes encoded so far
          word,     \* pixel -> byte 0..3 (as image of 4-tuples)
          stage     \* "encode", "decode", "done"
codecVars == <<planes, k, word, stage>>
Pow2(e) == 2 ^ e
NoBytes == <<0, 0, 0, 0>>
H == Rows(planes[1])
W == Cols(planes[1])
Blank(h, w) == [y \in 1..h |-> [x \in 1..w |-> NoBytes]]
CodecStart(p) == planes = p /\ k = 0 /\ stage = "encode" /\ word = Blank(Rows(p[1]), Cols(p[1]))
AddClass == /\ stage = "encode" /\ k < Len(planes)
            /\ word' = [y \in 1..H |-> TLCEval([x \in 1..W |->
                 IF planes[k + 1][y][x] = 0 THEN word[y][x]
                 ELSE [word[y][x] EXCEPT ![k \div 8 + 1] = @ + Pow2(k % 8)]])]
            /\ k' = k + 1 /\ UNCHANGED <<planes, stage>>
Encoded == stage = "encode" /\ k = Len(planes) /\ stage' = "done" /\ UNCHANGED <<planes, k, word>>
CodecNext == AddClass \/ Encoded
Bit(b, i) == (b \div Pow2(i)) % 2
Plane(wd, c) == [y \in 1..Len(wd) |-> TLCEval([x \in 1..Len(wd[1]) |-> Bit(wd[y][x][(c - 1) \div 8 + 1], (c - 1) % 8)])]
Decode(wd, n) == [c \in 1..n |-> Plane(wd, c)]
Rgb(wd) == [y \in 1..Len(wd) |-> [x \in 1..Len(wd[1]) |-> <<wd[y][x][3], wd[y][x][2], wd[y][x][1]>>]]
Collapsed(p) == [y \in 1..Rows(p[1]) |-> [x \in 1..Cols(p[1]) |-> IF \E c \in 1..Len(p) : p[c][y][x] # 0 THEN 1 ELSE 0]]
=============================================================================
