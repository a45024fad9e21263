SPECIFICATION TSpec
CONSTANT P = 512
