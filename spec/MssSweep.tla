------------------------------ MODULE MssSweep -------------------------------
(* Every single-trit alteration of a signature, by position: the header (tree *)
(* height 4 trits, key number 14), 81 parts of 162 trits, h nodes of 243.     *)
(* None of them verifies; the decoded header decides whether recovery is      *)
(* possible at all.  Negative positions stand for the trits of the public key *)
(* the unaltered signature is checked against, and for keys of one trit.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS H, STEP
VARIABLES p, s, k, v
HEAD == 18
SIG == 81 * 162
SigSize(h) == HEAD + SIG + 243 * h
Heads == 0..(HEAD - 1)
Bodies == {x \in HEAD..(SigSize(H) - 1) : (x - HEAD) % STEP = (x \div 162) % STEP \/ x = SigSize(H) - 1 \/ x = HEAD \/ x = HEAD + SIG - 1}
Init == /\ k \in (IF STEP = 1 THEN {0} ELSE 0..(2 ^ H - 1)) /\ s \in 1..2 /\ v \in (IF STEP = 1 THEN {4} ELSE {1, 2, 3, 4})
        /\ p \in Heads \cup (IF k = (v % 2 ^ H) THEN Bodies \cup (IF v = 4 THEN {0 - x : x \in 1..246} ELSE {}) ELSE {})
Next == FALSE /\ UNCHANGED <<p, s, k, v>>
Spec == Init /\ [][Next]_<<p, s, k, v>>
BT(x, n, i) == LET off == (3 ^ n - 1) \div 2 IN (((x + off) \div 3 ^ i) % 3) - 1
Add(t, d) == LET u == (t + d + 3) % 3 IN IF u = 2 THEN -1 ELSE u
Height == IF p < 4 /\ p >= 0 THEN H + 3 ^ p * (Add(BT(H, 4, p), s) - BT(H, 4, p)) ELSE H
Number == IF p >= 4 /\ p < HEAD THEN k + 3 ^ (p - 4) * (Add(BT(k, 14, p - 4), s) - BT(k, 14, p - 4)) ELSE k
Recoverable == Height >= 0 /\ Number >= 0 /\ (Height > 20 \/ Number < 2 ^ Height) /\ Height <= H
Emit == PrintT("@@" \o ToJson([t |-> "sweep", h |-> H, k |-> k, v |-> v, p |-> IF p < 0 THEN 0 ELSE p, s |-> s, height |-> Height, number |-> Number, recoverable |-> Recoverable] @@ (IF p < 0 THEN [q |-> 0 - p - 1] ELSE <<>>)))
==============================================================================
