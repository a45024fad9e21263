------------------------------ MODULE Datasets ------------------------------
EXTENDS Integers, Sequences
(* the dataset tables *)
CityscapesTable == <<<<7, 0>>, <<8, 1>>, <<11, 2>>, <<12, 3>>, <<13, 4>>, <<17, 5>>, <<19, 6>>, <<20, 7>>, <<21, 8>>, <<22, 9>>,
                     <<23, 10>>, <<24, 11>>, <<25, 12>>, <<26, 13>>, <<27, 14>>, <<28, 15>>, <<31, 16>>, <<32, 17>>, <<33, 18>>>>
CityscapesNames == <<"road", "sidewalk", "building", "wall", "fence", "pole", "traffic light", "traffic sign", "vegetation",
                     "terrain", "sky", "person", "rider", "car", "truck", "bus", "train", "motorcycle", "bicycle">>
CityscapesInst == <<24, 25, 26, 27, 28, 31, 32, 33>>
CityscapesLabels == [n \in 1..34 |-> n - 1]
SbdTable == [n \in 1..20 |-> <<n, n - 1>>]
SbdNames == <<"aeroplane", "bicycle", "bird", "boat", "bottle", "bus", "car", "cat", "chair", "cow", "dining table", "dog", "horse",
              "motor bike", "person", "potted plant", "sheep", "sofa", "train", "tv/monitor">>
SbdInst == [n \in 1..20 |-> n]
SbdLabels == [n \in 1..22 |-> n - 1]
=============================================================================
