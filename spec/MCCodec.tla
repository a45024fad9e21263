------------------------------- MODULE MCCodec -------------------------------
(* one- and two-pixel images: every combination of up to NC classes per pixel *)
EXTENDS Codec
CONSTANTS Counts, Wide
Bits(n) == [1..n -> {0, 1}]
Init == \E n \in Counts : \E b \in Bits(n) : \E sh \in Wide :
          \* further classes beyond the varied ones are shifted in front, up to 32 in all
          CodecStart([c \in 1..(n + sh) |-> IF c > sh THEN <<<<b[c - sh], 1 - b[c - sh]>>>> ELSE <<<<c % 2, b[1]>>>>])
Spec == Init /\ [][CodecNext]_codecVars
RoundTrip == stage = "done" => Decode(word, Len(planes)) = planes
Prefixes == stage = "done" => \A m \in 1..Len(planes) : Decode(word, m) = SubSeq(planes, 1, m)
Partial == Decode(word, k) = SubSeq(planes, 1, k)
BytesFit == \A y \in 1..H, x \in 1..W, i \in 1..4 : word[y][x][i] \in 0..255
RgbEnough == (stage = "done" /\ Len(planes) <= 24) => \A y \in 1..H, x \in 1..W : word[y][x][4] = 0
AnyIsNonzero == stage = "done" => \A y \in 1..H, x \in 1..W : (Collapsed(planes)[y][x] = 1) = (word[y][x] # NoBytes)
=============================================================================
