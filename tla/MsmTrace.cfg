INIT Init
NEXT MNext
