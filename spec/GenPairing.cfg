SPECIFICATION Spec
CONSTANTS Focus = "pairing"
