SPECIFICATION TSpec
CONSTANT Exact = FALSE
