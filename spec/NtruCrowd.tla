------------------------------ MODULE NtruCrowd ------------------------------
(* Many key pairs made one after another with one nonce by different           *)
(* generators.  No two are the same; each opens the capsules made for it and   *)
(* not those made for its neighbour.                                           *)
EXTENDS Ntru
CONSTANTS COUNT
VARIABLES nn
Pair(i) == [g |-> 100 + i, n |-> nn]
Next1(i) == (i % COUNT) + 1
Dec(i, j, s) == Rec("decr", [y |-> i, p |-> j, s |-> s, alter |-> [a |-> "none"], ok |-> i = j, k |-> 4])
Life == [i \in 1..COUNT |-> Rec("gen", Pair(i))] \o [i \in 1..(3 * COUNT) |-> Rec("sponge", [x |-> 0])]
        \o [i \in 1..COUNT |-> Rec("encr", [p |-> i, s |-> (3 * i) - 2, k |-> 4, g |-> 1, n |-> nn])]
        \o [i \in 1..COUNT |-> Dec(i, i, (3 * i) - 1)] \o [i \in 1..COUNT |-> Dec(i, Next1(i), 3 * i)]
        \o [i \in 1..COUNT |-> Rec("pub", [p |-> i, alter |-> [a |-> "none"]])]
CInit == nn \in 1..4 /\ pairs = <<>> /\ sps = <<>> /\ caps = <<>> /\ hist = <<>> /\ fin = FALSE
CNext == ~fin /\ fin' = TRUE /\ hist' = TLCEval(Life) /\ UNCHANGED <<pairs, sps, caps, nn>>
CSpec == CInit /\ [][CNext]_<<vars, nn>>
Apart == \A i, j \in 1..COUNT : i # j => Pair(i) # Pair(j)
==============================================================================
