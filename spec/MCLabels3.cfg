SPECIFICATION Spec
CONSTANTS MaxT = 3
INVARIANT MapRight PlanesRight OneHotPartition OneHotComplete NumbersDistinct NumbersOfCategory BorderRight TablesBijective
PROPERTY OncePerPixel
