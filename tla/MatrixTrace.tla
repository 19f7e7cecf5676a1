------------------------------ MODULE MatrixTrace ------------------------------
(* Linear algebra over a field: a matrix is the sequence of its rows.           *)
EXTENDS Tower, TraceBase
VARIABLES F
Init == TInit /\ F = << <<2>>, << >> >>
Pure == UNCHANGED F
B == << F[1], << >> >>   \* the prime field
Rows(m) == Len(m)
Cols(m) == IF m = << >> THEN 0 ELSE Len(m[1])
RECURSIVE Dot(_, _, _, _)
Dot(K, x, y, i) == IF i > Len(x) THEN TwZero(K) ELSE TwAdd(K, TwMul(K, x[i], y[i]), Dot(K, x, y, i + 1))
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
MV(m, x) == [i \in 1..Len(m) |-> Dot(F, m[i], x, 1)]
MM(m, n) == [i \in 1..Len(m) |-> [j \in 1..Cols(n) |-> Dot(F, m[i], Col(n, j), 1)]]
\* expansion along the first row
Minor(m, j) == [i \in 1..(Len(m) - 1) |-> [k \in 1..(Len(m) - 1) |-> m[i + 1][IF k < j THEN k ELSE k + 1]]]
RECURSIVE Det(_), DetFrom(_, _)
Det(m) == IF Len(m) = 0 THEN TwOne(F) ELSE DetFrom(m, 1)
DetFrom(m, j) == IF j > Len(m) THEN TwZero(F)
                 ELSE LET x == TwMul(F, m[1][j], Det(Minor(m, j)))
                      IN TwAdd(F, IF j % 2 = 1 THEN x ELSE TwNeg(F, x), DetFrom(m, j + 1))
TField == Is("Field") /\ F' = << E.p, E.ext >>
TMatVec == Is("MatVec") /\ E.v = MV(E.m, E.x) /\ Pure
TMatMat == Is("MatMat") /\ E.v = MM(E.m, E.n) /\ Pure
\* every column is the previous one rotated down by one
TCirc == Is("Circ") /\ E.v = [i \in 1..Len(E.x) |-> [j \in 1..Len(E.x) |-> E.x[((i - j) % Len(E.x)) + 1]]] /\ Pure
TSplit == Is("Split") /\ E.v = [i \in 1..E.n |-> SubSeq(E.m, i, i + Len(E.m) - E.n)] /\ Pure
TDet == Is("Det") /\ E.v = Det(E.m) /\ Pure
TCopy == Is("Copy") /\ Pure
         /\ E.ok = ((E.fr = 0 \/ E.fr = E.r) /\ (E.fc = 0 \/ E.fc = E.c))
         /\ (E.ok => E.v = E.m /\ E.left = 0)
RECURSIVE RevBits(_, _)
RevBits(i, n) == IF n = 1 THEN 0 ELSE (i % 2) * (n \div 2) + RevBits(i \div 2, n \div 2)
TRev == Is("Rev") /\ E.v = [i \in 1..Len(E.m) |-> E.m[RevBits(i - 1, Len(E.m)) + 1]] /\ Pure
-----------------------------------------------------------------------------
RowIdx(r) == LET nz(j) == r[j + 1] # TwZero(F) IN SelectSeq([j \in 1..Len(r) |-> j - 1], nz)
Idx(m) == [i \in 1..Len(m) |-> RowIdx(m[i])]
RowData(r) == LET ix == RowIdx(r) IN [k \in 1..Len(ix) |-> r[ix[k] + 1]]
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE s[1] \o Flat(Tail(s))
Used(m) == { j \in 1..Cols(m) : \E i \in 1..Len(m) : m[i][j] # TwZero(F) }
UsedCols(m) == IF Used(m) = {} THEN 0 ELSE CHOOSE j \in Used(m) : \A k \in Used(m) : k <= j
Dims(m) == E.rows = Len(m) /\ E.cols = UsedCols(m) /\ E.nz = Len(Flat(Idx(m))) /\ E.sorted
TEll == Is("Ell") /\ E.idx = Idx(E.m) /\ E.data = [i \in 1..Len(E.m) |-> RowData(E.m[i])] /\ Dims(E.m) /\ Pure
RECURSIVE Ptr(_, _)
Ptr(m, from) == IF m = << >> THEN << from >> ELSE << from >> \o Ptr(Tail(m), from + Len(RowIdx(m[1])))
TCsr == Is("Csr") /\ E.idx = Flat(Idx(E.m)) /\ E.data = Flat([i \in 1..Len(E.m) |-> RowData(E.m[i])]) /\ E.ptr = Ptr(E.m, 0) /\ Dims(E.m) /\ Pure
\* the same matrix without trailing zero columns
TDense == Is("Dense") /\ E.r = Len(E.m) /\ E.c = UsedCols(E.m) /\ E.v = [i \in 1..Len(E.m) |-> SubSeq(E.m[i], 1, UsedCols(E.m))] /\ E.w = E.v /\ Pure
TSame == Is("Same") /\ E.ell = (E.m = E.n) /\ E.csr = (E.m = E.n) /\ E.nell = (E.m # E.n) /\ E.ncsr = (E.m # E.n) /\ Pure
TSorted == Is("Sorted") /\ E.ell = E.is /\ E.csr = E.is /\ Pure
-----------------------------------------------------------------------------
TPackH == Is("PackH") /\ Pure
          /\ LET r == E.x[1] n == E.n k == (Len(r) + n - 1) \div n
             IN E.v = [i \in 1..k |-> [j \in 1..n |-> IF (i - 1) * n + j <= Len(r) THEN r[(i - 1) * n + j] ELSE TwZero(B)]]
TPackV == Is("PackV") /\ Pure
          /\ E.v = [c \in 1..Cols(E.m) |-> [j \in 1..E.n |-> E.m[((E.r + j - 1) % Len(E.m)) + 1][c]]]
TPackVE == Is("PackVE") /\ Pure
           /\ LET d == F[2][1][1]
              IN E.v = [k \in 1..(Cols(E.m) * d) |-> [j \in 1..E.n |-> E.m[((E.r + j - 1) % Len(E.m)) + 1][((k - 1) \div d) + 1][((k - 1) % d) + 1]]]
Lift(x) == [k \in 1..F[2][1][1] |-> IF k = 1 THEN x ELSE TwZero(B)]
RECURSIVE Horner(_, _, _)
Horner(r, b, i) == IF i > Len(r) THEN TwZero(F) ELSE TwAdd(F, Lift(r[i]), TwMul(F, b, Horner(r, b, i + 1)))
TDot == Is("Dot") /\ E.v = [i \in 1..Len(E.m) |-> Horner(E.m[i], E.b, 1)] /\ Pure
Done == TDone /\ UNCHANGED << t, l, F >>
Next == \/ TField \/ TMatVec \/ TMatMat \/ TCirc \/ TSplit \/ TDet \/ TCopy \/ TRev \/ TEll \/ TCsr \/ TDense \/ TSame \/ TSorted
        \/ TPackH \/ TPackV \/ TPackVE \/ TDot \/ Done
=============================================================================
