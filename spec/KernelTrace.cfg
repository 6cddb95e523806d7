CONSTANT S = 5040
SPECIFICATION TSpec
