SPECIFICATION TSpec
CONSTANT Which = "scores"
