------------------------------ MODULE WotsGen -------------------------------
(* Pairs of hash values to sign with one key: chosen so that sums are        *)
(* extreme, at carry boundaries of the checksum, equal, or one apart.        *)
EXTENDS Wots, Json
CONSTANTS K
VARIABLES c
Pick(S) == RandomElement(S)
Const(v) == [i \in 1..78 |-> v]
(* digits with a given sum: as even as possible, starting at position o *)
WithSum(s, o) == LET q == s \div 78 r == s % 78 IN [i \in 1..78 |-> q + (IF (i + o) % 78 < r THEN 1 ELSE 0)]
Rnd == [i \in 1..78 |-> Pick(-13..13)]
Clip(v) == IF v > 13 THEN 13 ELSE IF v < -13 THEN -13 ELSE v
Near(m, i, d) == [m EXCEPT ![i] = Clip(@ + d)]
(* sums next to where a checksum digit carries *)
Edges == {-1014, -1013, 1013, 1014, 0, 1, -1} \cup UNION {{e - 1, e, e + 1} : e \in {27 * k + 13 : k \in {-37, -28, -15, -14, -13, -1, 0, 1, 12, 13, 14, 36}}} \cup {x * 364 : x \in {-2, -1, 1, 2}} \cup {365, -365, 363, -363}
Legal == {e \in Edges : e >= -1014 /\ e <= 1014}
Pairs ==
  {[m |-> Const(v), n |-> Near(Const(v), i, d)] : v \in {-13, -12, -1, 0, 1, 12, 13}, i \in {1, 2, 40, 77, 78}, d \in {-26, -1, 1, 26}}
  \cup {[m |-> WithSum(e, 0), n |-> Near(WithSum(e, 0), 5, d)] : e \in Legal, d \in {-1, 1, 2, -2, 26, -26}}
  \cup {[m |-> WithSum(e, 0), n |-> WithSum(e, 17)] : e \in Legal}
  \cup {[m |-> Const(-13), n |-> Const(13)], [m |-> Const(13), n |-> Const(12)]}
RndPair == \E m \in {Rnd}, i \in {Pick(1..78)}, j \in {Pick(1..78)}, d \in {Pick({1, -1, 2, 13, 26, -26})}, k \in {Pick(1..3)} :
   \E n \in {IF k = 1 THEN Rnd ELSE IF k = 2 THEN Near(m, i, d) ELSE Near(Near(m, i, d), j, -d)} : c = [m |-> m, n |-> n]
Init == (c \in Pairs \/ \E x \in 1..K : RndPair) /\ c.m # c.n
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
NotReached == ~Reaches(c.m, c.n, 27, 3) /\ ~Reaches(c.n, c.m, 27, 3)
Emit == PrintT("@@" \o ToJson([t |-> "pair", m |-> c.m, n |-> c.n, pm |-> Positions(c.m, 27, 3), pn |-> Positions(c.n, 27, 3)]))
=============================================================================
