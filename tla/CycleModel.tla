------------------------------ MODULE CycleModel ------------------------------
(* The union-by-size algorithm that keeps copy constraints: the next cell, the *)
(* representative and the class size of every cell, against the classes they   *)
(* stand for.                                                                  *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANT Cell
VARIABLES next, base, size, cls
vars == << next, base, size, cls >>
Init == /\ next = [x \in Cell |-> x] /\ base = [x \in Cell |-> x] /\ size = [x \in Cell |-> 1]
        /\ cls = [x \in Cell |-> {x}]
RECURSIVE Walk(_, _, _)
Walk(a, x, seen) == IF next[x] = a THEN seen \cup {x} ELSE IF next[x] \in seen THEN {} ELSE Walk(a, next[x], seen \cup {x})
Copy(a, b) ==
  IF base[a] = base[b] THEN UNCHANGED vars
  ELSE LET big == IF size[base[a]] < size[base[b]] THEN base[b] ELSE base[a]
           small == IF big = base[a] THEN base[b] ELSE base[a]
           u == cls[a] \cup cls[b]
       IN /\ size' = [size EXCEPT ![big] = @ + size[small]]
          /\ base' = [x \in Cell |-> IF x \in Walk(small, small, {}) THEN big ELSE base[x]]
          /\ next' = [next EXCEPT ![a] = next[b], ![b] = next[a]]
          /\ cls' = [x \in Cell |-> IF x \in u THEN u ELSE cls[x]]
Next == \E a, b \in Cell : Copy(a, b)
Spec == Init /\ [][Next]_vars
CyclesAreClasses == \A x \in Cell : Walk(x, x, {}) = cls[x]
BasesAreClasses == \A x, y \in Cell : base[x] \in cls[x] /\ ((base[x] = base[y]) <=> (cls[x] = cls[y]))
SizesCount == \A x \in Cell : size[base[x]] = Cardinality(cls[x])
NextIsPermutation == { next[x] : x \in Cell } = Cell
NeverSplit == [][\A x \in Cell : cls[x] \subseteq cls'[x]]_vars
===============================================================================
