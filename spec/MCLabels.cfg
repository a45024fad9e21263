SPECIFICATION Spec
CONSTANTS MaxT = 2
INVARIANT MapRight PlanesRight OneHotPartition OneHotComplete NumbersDistinct NumbersOfCategory BorderRight TablesBijective
PROPERTY OncePerPixel
