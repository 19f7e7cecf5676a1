----------------------------- MODULE Permutation -----------------------------
(* Copy constraints.  Cells are << column, row >>; cls maps every cell to the  *)
(* set of cells declared equal to it.  The permutation must cycle through      *)
(* exactly that set; the polynomials write the label d^(c-1) w^(r-1) of the    *)
(* next cell at each cell.                                                     *)
EXTENDS Fp, FiniteSets
LOCAL INSTANCE TLC
Cells(cols, rows) == (1..cols) \X (1..rows)
Alone(cols, rows) == [x \in Cells(cols, rows) |-> {x}]
Joined(cls, a, b) == IF a \in cls[b] THEN cls
                     ELSE LET u == cls[a] \cup cls[b] IN [x \in DOMAIN cls |-> IF x \in u THEN u ELSE cls[x]]
Legal(cls, a) == a \in DOMAIN cls
\* a cyclic walk from a through a class: every member once, starting at a
Walks(cls, a, w) == Len(w) = Cardinality(cls[a]) /\ w[1] = a /\ { w[i] : i \in 1..Len(w) } = cls[a]
Lists(cls, a, w) == Len(w) = Cardinality(cls[a]) /\ { w[i] : i \in 1..Len(w) } = cls[a]
\* the table of labels: distinct, each column the previous times the same factor
Labels(un, w, cols, rows) ==
  /\ Len(un) = cols /\ \A i \in 1..cols : Len(un[i]) = rows
  /\ un[1][1] = BMod(<< 1 >>, p)
  /\ \A j \in 1..rows - 1 : un[1][j + 1] = FMul(un[1][j], w)
  /\ \A i \in 1..cols - 1 : \A j \in 1..rows : un[i + 1][j] = FMul(un[i][j], un[2][1])
  /\ Cardinality({ un[i][j] : i \in 1..cols, j \in 1..rows }) = cols * rows
\* the cell a label value names
CellOf(un, v, cls) == CHOOSE x \in DOMAIN cls : un[x[1]][x[2]] = v
Named(un, v, cls) == \E x \in DOMAIN cls : un[x[1]][x[2]] = v
RECURSIVE Cycle(_, _, _, _)
Cycle(f, a, x, seen) == IF f[x] = a THEN seen \cup {x} ELSE IF f[x] \in seen THEN {} ELSE Cycle(f, a, f[x], seen \cup {x})
Encodes(un, ps, cls) ==
  /\ \A x \in DOMAIN cls : Named(un, ps[x[1]][x[2]], cls)
  /\ LET f == TLCEval([x \in DOMAIN cls |-> CellOf(un, ps[x[1]][x[2]], cls)])
     IN \A x \in DOMAIN cls : Cycle(f, x, x, {}) = cls[x]
ChunkOf(s, k, c) == SubSeq(s, (c - 1) * k + 1, IF c * k > Len(s) THEN Len(s) ELSE c * k)
=============================================================================
