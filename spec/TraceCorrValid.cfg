SPECIFICATION TSpec
CONSTANT Which = "valid"
