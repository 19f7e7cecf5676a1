--------------------------------- MODULE Mmcs ---------------------------------
(* Commitments to several matrices of different heights in one hash tree.       *)
(* A matrix is its list of rows, a row a list of symbols.  H hashes a list of   *)
(* symbols, C two digests; Zero stands for a row that does not exist.  Matrices *)
(* whose heights round up to the same power of two have equal heights.          *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC
CONSTANTS H(_), C(_, _), Zero
RECURSIVE Ceil2From(_, _)
Ceil2From(n, k) == IF k >= n THEN k ELSE Ceil2From(n, 2 * k)
Ceil2(n) == Ceil2From(n, 1)
RECURSIVE MaxH(_, _)
MaxH(ms, j) == IF j > Len(ms) THEN 0 ELSE LET r == MaxH(ms, j + 1) IN IF Len(ms[j]) > r THEN Len(ms[j]) ELSE r
RECURSIVE Hit(_, _, _)
Hit(ms, n, j) == IF j > Len(ms) THEN 0 ELSE IF Ceil2(Len(ms[j])) = n THEN Len(ms[j]) ELSE Hit(ms, n, j + 1)
\* the rows i of the matrices of padded height n, one after the other
RECURSIVE RowAt(_, _, _, _)
RowAt(ms, n, i, j) == IF j > Len(ms) THEN << >> ELSE (IF Ceil2(Len(ms[j])) = n THEN ms[j][i] ELSE << >>) \o RowAt(ms, n, i, j + 1)
RowHash(ms, n, h, i) == IF i <= h THEN H(RowAt(ms, n, i, 1)) ELSE Zero
Bottom(ms) == LET n == Ceil2(MaxH(ms, 1)) h == Hit(ms, n, 1) IN TLCEval([i \in 1..n |-> RowHash(ms, n, h, i)])
Up(ms, d) == LET n == Len(d) \div 2
                 h == Hit(ms, n, 1)
             IN TLCEval([i \in 1..n |-> LET x == C(d[2 * i - 1], d[2 * i]) IN IF h = 0 THEN x ELSE C(x, RowHash(ms, n, h, i))])
RECURSIVE LayersFrom(_, _)
LayersFrom(ms, d) == IF Len(d) = 1 THEN << d >> ELSE << d >> \o LayersFrom(ms, Up(ms, d))
Layers(ms) == TLCEval(LayersFrom(ms, Bottom(ms)))
Root(t) == t[Len(t)][1]
\* opening of row i (counted from zero) of the highest matrix, and of the rows above it in the others
RowOf(ms, j, i) == (i \div (Ceil2(MaxH(ms, 1)) \div Ceil2(Len(ms[j])))) + 1
Openable(ms, i) == \A j \in 1..Len(ms) : RowOf(ms, j, i) <= Len(ms[j])
Vals(ms, i) == [j \in 1..Len(ms) |-> ms[j][RowOf(ms, j, i)]]
RECURSIVE PathFrom(_, _, _)
PathFrom(t, i, d) == IF d >= Len(t) THEN << >> ELSE << t[d][(IF i % 2 = 0 THEN i + 1 ELSE i - 1) + 1] >> \o PathFrom(t, i \div 2, d + 1)
Path(t, i) == PathFrom(t, i, 1)
\* the verifier: hs the heights, ws the widths (0: not known)
RECURSIVE ValsAt(_, _, _, _)
ValsAt(hs, n, v, j) == IF j > Len(hs) THEN << >> ELSE (IF Ceil2(hs[j]) = n THEN v[j] ELSE << >>) \o ValsAt(hs, n, v, j + 1)
RECURSIVE Climb(_, _, _, _, _, _)
Climb(hs, n, i, v, q, x) ==
  IF q = << >> THEN x
  ELSE LET y == IF i % 2 = 0 THEN C(x, q[1]) ELSE C(q[1], x)
           m == n \div 2
           z == IF \E j \in 1..Len(hs) : Ceil2(hs[j]) = m THEN C(y, H(ValsAt(hs, m, v, 1))) ELSE y
       IN Climb(hs, m, i \div 2, v, Tail(q), z)
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
MaxOf(hs) == CHOOSE h \in {hs[j] : j \in 1..Len(hs)} : \A j \in 1..Len(hs) : hs[j] <= h
Accepts(root, hs, ws, i, v, q) ==
  /\ hs # << >> /\ Len(hs) = Len(v)
  /\ \A j \in 1..Len(hs) : ws[j] = 0 \/ Len(v[j]) = ws[j]
  /\ LET n == Ceil2(MaxOf(hs))
     IN Len(q) = Log2(n) /\ i < n /\ Climb(hs, n, i, v, q, H(ValsAt(hs, n, v, 1))) = root
================================================================================
