CONSTANT TPU = 16
SPECIFICATION TSpec
