------------------------------- MODULE WotsMC -------------------------------
(* Exhaustive: no value reaches another; and for the real sizes (78 trytes,  *)
(* three checksum trytes) every possible sum has an exact checksum.          *)
EXTENDS Wots
CONSTANTS B, L, C, SUMS
VARIABLES m, n, s
vars == <<m, n, s>>
H == B \div 2
Init == IF SUMS THEN m = <<>> /\ n = <<>> /\ s \in -1014..1014
        ELSE s = 0 /\ m \in [1..L -> -H..H] /\ n \in [1..L -> -H..H]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
AsSeq(f) == [i \in 1..L |-> f[i]]
Antichain == ~SUMS => (Reaches(m, n, B, C) => m = n)
Exact == ~SUMS => BValue(Checksum(m, B, C), B) = -Sum(m)
SumExact == SUMS => LET d == BDigits(-s, 27, 3) IN BValue(d, 27) = -s /\ \A i \in 1..3 : d[i] \in -13..13
=============================================================================
