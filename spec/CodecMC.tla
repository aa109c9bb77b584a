------------------------------ MODULE CodecMC ------------------------------
(* The codes are one-to-one: exhaustive over all small codewords.            *)
EXTENDS Codec
CONSTANTS B, L
VARIABLES cw
D == (0 - Half(B))..Half(B)
Init == cw \in UNION {[1..n -> D] : n \in 1..L}
Next == UNCHANGED cw
Spec == Init /\ [][Next]_cw
Head1 == cw[1]
Canonical == LET t == Tail(cw) IN
   IF SizeOk(Head1, t)
   THEN LET ds == SizeDigits(Head1, t)
            v == Value(ds, B)
        IN v >= 0 /\ EncodeSize(v, B) = <<Head1>> \o ds
   ELSE Len(t) = Head1 => \A v \in 0..60 : EncodeSize(v, B) # cw
Unique == LET v == Value(cw, B) IN Digits(v, B, Len(cw)) = cw
MinLen == LET v == Value(cw, B) IN v > 0 => v <= Half(B ^ MinDigits(v, B)) /\ v > Half(B ^ (MinDigits(v, B) - 1))
AlphabetOneToOne == /\ \A i, j \in 1..27 : Alphabet[i] = Alphabet[j] => i = j
                    /\ \A k \in 0..26 : CharOf(TryteOf(k)) = Alphabet[k + 1]
                    /\ {TryteOf(k) : k \in 0..26} = -13..13
TritsOneToOne == \A v \in -13..13 : ValueOfTrits(Trits(v, 3)) = v
============================================================================
