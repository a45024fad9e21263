SPECIFICATION TSpec
CONSTANT Which = "areas"
