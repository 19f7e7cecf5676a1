INIT KInit
NEXT KNext
