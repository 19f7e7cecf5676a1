-------------------------------- MODULE Pairing --------------------------------
(* A pairing of two cyclic groups of prime order r into the r-th roots of unity   *)
(* of a field, known by its value g at the generators: by bilinearity the value   *)
(* at multiples a and b of the generators is g^(a b), and a list multiplies.      *)
EXTENDS Ec
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
PgDot(r, as, bs) == FoldLeft(LAMBDA s, i : BAddMod(s, BMulMod(as[i], bs[i], r), r), << >>, [i \in DOMAIN as |-> i])
PgValue(F, g, r, as, bs) == TwPow(F, g, PgDot(r, as, bs))
\* g generates the whole group of r-th roots: r is prime and g is not one
PgGood(F, g, r) == g # TwOne(F) /\ TwPow(F, g, r) = TwOne(F)
=============================================================================
