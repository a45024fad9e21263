SPECIFICATION TSpec
CONSTANT P = 1000
