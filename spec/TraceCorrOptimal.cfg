SPECIFICATION TSpec
CONSTANT Which = "optimal"
