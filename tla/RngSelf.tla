------------------------------- MODULE RngSelf -------------------------------
(* The specification against the block function test vector of RFC 8439 (2.3.2 *)
(* and the keystream of the zero key) and Marsaglia's recurrence.              *)
EXTENDS Rng
VARIABLES done
Key == [i \in 1..8 |-> << (4 * i - 1) * 256 + (4 * i - 2), (4 * i - 3) * 256 + (4 * i - 4) >>]
In == Constants4 \o Key \o << << 0, 1 >>, << 2304, 0 >>, << 18944, 0 >>, Zero32 >>
\* e4e7f110 15593bd1 1fdd0f50 c47120a3 ...
ASSUME LET o == ChaChaCore(In) IN o[1] = << 58599, 61712 >> /\ o[2] = << 5465, 15313 >> /\ o[3] = << 8157, 3920 >> /\ o[4] = << 50289, 8355 >>
\* the zero key: 76b8e0ad a0f13d90 ... as little endian words ade0b876 903df1a0
ASSUME LET o == Take(Fresh("chacha"), 2)[2] IN o = << << 44512, 47222 >>, << 36925, 61856 >> >>
ASSUME Quarter(<< << 4369, 4369 >>, << 258, 772 >>, << 39821, 28483 >>, << 291, 17767 >> >>, 1, 2, 3, 4)
       = << << 59946, 37620 >>, << 51996, 63694 >>, << 17793, 18222 >>, << 22657, 50363 >> >>
ASSUME WShl(<< 1, 2^15 >>, 1) = << 3, 0 >> /\ WShr(<< 3, 0 >>, 1) = << 1, 2^15 >> /\ WRotl(<< 2^15, 1 >>, 1) = << 0, 3 >>
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
