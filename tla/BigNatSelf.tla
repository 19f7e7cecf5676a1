----------------------------- MODULE BigNatSelf -----------------------------
(* Compares the overridden evaluation of BigNat with its TLA+ definitions.    *)
EXTENDS BigNat, TLC, FiniteSets
VARIABLES a, b, n
Vals == { <<>>, <<1>>, <<2>>, <<4095>>, <<0,1>>, <<1,1>>, <<4095,4095>>, <<0,0,2048>>,
          <<17,4000,3,99>>, <<1,0,0,4095>> }
Init == a \in Vals /\ b \in Vals /\ n \in {0, 1, 12, 13, 40}
Next == UNCHANGED <<a, b, n>>
Agree ==
  /\ BAdd(a, b) = PAdd(a, b) /\ BMul(a, b) = PMul(a, b) /\ BLess(a, b) = PLess(a, b)
  /\ (~PLess(a, b) => BSub(a, b) = PSub(a, b))
  /\ (b # <<>> => BDiv(a, b) = PDiv(a, b) /\ BMod(a, b) = PMod(a, b) /\ BMulMod(a, a, b) = PMod(PMul(a, a), b)
        /\ BAddMod(a, a, b) = PMod(PAdd(a, a), b) /\ BSubMod(<<7>>, a, b) = PMod(PSub(PAdd(PMod(<<7>>, b), b), PMod(a, b)), b)
        /\ BPowMod(a, <<n>>, b) = PPowMod(a, <<n>>, b))
  /\ BXor(a, b) = PBitwise(PXor1, a, b) /\ BAnd(a, b) = PBitwise(PAnd1, a, b) /\ BOr(a, b) = PBitwise(POr1, a, b)
  /\ BShl(a, n) = PMul(a, PPow2(n)) /\ BShr(a, n) = PDiv(a, PPow2(n)) /\ BPow2(n) = PPow2(n)
  /\ BFromInt(n * 1000003) = PFromInt(n * 1000003) /\ BToInt(BFromInt(n * 77777)) = n * 77777
  /\ (b # <<>> => PAdd(PMul(PDiv(a, b), b), PMod(a, b)) = a /\ PLess(PMod(a, b), b))
=============================================================================
