INIT TInit
NEXT TNext
CONSTANTS P = 46337
