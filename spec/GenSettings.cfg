SPECIFICATION Spec
CONSTANTS Focus = "settings"
