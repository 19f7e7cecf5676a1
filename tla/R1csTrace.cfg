INIT RInit
NEXT RNext
