INIT Init
NEXT Next
CONSTANTS MaxSpan = 7 MaxD = 3 MaxN = 4 ScriptLen = 3
