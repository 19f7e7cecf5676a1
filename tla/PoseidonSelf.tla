------------------------------ MODULE PoseidonSelf ------------------------------
(* Compares Poseidon.java with the definitions of Poseidon.tla, and checks on   *)
(* small fields what is claimed of them: both are permutations of all states    *)
(* whenever the layers are invertible and the power is coprime to p - 1, and    *)
(* P2Invertible decides invertibility of the internal layer.                    *)
EXTENDS Poseidon, TLC, FiniteSets
VARIABLES k, d
F7 == << <<7>>, << >> >>
F5 == << <<5>>, << >> >>
E5 == {<< >>, <<1>>, <<2>>, <<3>>, <<4>>}
C1 == [alpha |-> 5, rf |-> 2, rp |-> 2, mds |-> << << <<1>>, <<2>> >>, << <<3>>, <<5>> >> >>,
       ark |-> << << <<1>>, <<2>> >>, << <<3>>, <<6>> >>, << << >>, <<2>> >>, << <<5>>, <<4>> >> >>]
C2(x) == [alpha |-> 3, rf |-> 2, rp |-> 1, horizen |-> TRUE, scale |-> <<3>>, diag |-> x,
          ark |-> << << <<1>>, <<2>> >>, << <<3>>, << >> >>, << << >>, <<2>> >> >>]
W4 == [alpha |-> 3, rf |-> 2, rp |-> 1, horizen |-> TRUE, scale |-> <<3>>, diag |-> << <<1>>, << >>, <<2>>, <<4>> >>,
       ark |-> [i \in 1..3 |-> << <<i>>, <<2>>, << >>, <<3>> >>]]
W8(h) == [alpha |-> 5, rf |-> 2, rp |-> 1, horizen |-> h, scale |-> <<1>>, diag |-> << <<1>>, << >>, <<2>>, <<4>>, <<6>>, <<3>>, <<1>>, <<1>> >>,
       ark |-> [i \in 1..3 |-> << <<i>>, <<2>>, << >>, <<3>>, <<5>>, <<1>>, <<2>>, <<6>> >>]]
E7 == E5 \cup {<<5>>, <<6>>}
Init == k \in 1..6 /\ d \in {<< x, y >> : x \in E5, y \in E5}
Next == UNCHANGED << k, d >>
Keys == << <<31, 16, 8, 13>>, <<254, 5, 8, 60>>, <<14, 3, 8, 1>>, <<4, 2, 2, 3>> >>
Agree ==
  CASE k = 1 -> PoseidonPerm(F7, C1, d) = QPoseidonPerm(F7, C1, d)
    [] k = 2 -> Poseidon2Perm(F5, C2(d), << <<4>>, <<2>> >>) = QPoseidon2Perm(F5, C2(d), << <<4>>, <<2>> >>)
    [] k = 3 -> Poseidon2Perm(F5, W4, d \o d) = QPoseidon2Perm(F5, W4, d \o d)
    [] k = 4 -> \A h \in BOOLEAN : Poseidon2Perm(F7, W8(h), d \o << <<5>>, <<6>> >> \o d \o d) = QPoseidon2Perm(F7, W8(h), d \o << <<5>>, <<6>> >> \o d \o d)
    [] k = 5 -> (d[1] = << >> /\ d[2] # << >>) =>
                 LET K == Keys[d[2][1]]
                     q == TLCEval(QGrainBits(K, 200))
                 IN /\ GrainBits(K, 200) = q
                    /\ GrReject(q, <<9>>, 4, 3, 6) = QGrReject(q, <<9>>, 4, 3, 6, << >>)
                    /\ GrReject(q, <<0, 3>>, 14, 1, 2) = QGrReject(q, <<0, 3>>, 14, 1, 2, << >>)
                    /\ GrModP(q, <<7>>, 5, 2, 9) = QGrModP(q, <<7>>, 5, 2, 9)
                    /\ GrModP(q, <<1, 0, 2>>, 26, 2, 3) = QGrModP(q, <<1, 0, 2>>, 26, 2, 3)
    [] OTHER -> LET st == {<< x, y >> : x \in E5, y \in E5}
                    im == {P2Int(F5, d, <<2>>, x) : x \in st}
                IN (Cardinality(im) = 25) = P2Invertible(F5, d)
Bijective == k = 6 /\ d = << << >>, << >> >> =>
  /\ Cardinality({PoseidonPerm(F7, C1, << x, y >>) : x \in E7, y \in E7}) = 49
  /\ Cardinality({Poseidon2Perm(F5, C2(<< <<1>>, <<1>> >>), << x, y >>) : x \in E5, y \in E5}) = 25
=================================================================================
