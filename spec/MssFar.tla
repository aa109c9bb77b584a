------------------------------- MODULE MssFar -------------------------------
(* Keys of any height up to the largest (20) at any of their numbers.  A tree  *)
(* of 2^20 leaves takes hours to make, so here the key sits on a tree that     *)
(* only knows the current leaf and holds arbitrary neighbours on its path; the *)
(* rest (one-time keys, header, folding) is the real code.                     *)
(*  cap(h) keys, number k of them: one-time keys all differ; the header reads  *)
(*  (h, k); the signature folds to the root in the order given by k's bits.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS HEIGHTS, RANDOM, MODE
VARIABLES h, k, kk, fin
vars == <<h, k, kk, fin>>
Cap == 2 ^ h
(* numbers next to every place where a representation might wrap or saturate *)
Corner == {2 ^ i : i \in 0..19} \cup {3 ^ i : i \in 0..12} \cup {(3 ^ i - 1) \div 2 : i \in 1..13} \cup {10 ^ i : i \in 0..6} \cup {Cap \div 2, Cap, Cap - 1}
Near == UNION {{c - 1, c, c + 1, c + 2} : c \in Corner}
Spread == {(i * 7919 * 131) % Cap : i \in 1..RANDOM}
Ks == {x \in Near \cup Spread : x >= 0 /\ x < Cap}
BT(x, n, i) == LET off == (3 ^ n - 1) \div 2 IN (((x + off) \div 3 ^ i) % 3) - 1
RECURSIVE Value(_, _, _)
Value(x, n, i) == IF i = n THEN 0 ELSE 3 ^ i * BT(x, n, i) + Value(x, n, i + 1)
RECURSIVE Set(_)
Set(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Set(S \ {x})
(* wrong numbers to claim: the sibling, the same up to one level, and neighbours *)
Wrong == {x \in {k + 1, k - 1, 0, Cap - 1, (k + Cap \div 2) % Cap} \cup {IF (k \div 2 ^ i) % 2 = 0 THEN k + 2 ^ i ELSE k - 2 ^ i : i \in 0..(h - 1)} : x >= 0 /\ x < Cap /\ x # k}
Past == {x \in {Cap, Cap + 1, k + Cap, 2 * Cap, 2391484} : x >= Cap /\ x <= 2391484} \cup {-1, -Cap, 0 - 2391484}
Init == /\ h \in HEIGHTS /\ fin = FALSE
        /\ IF MODE = "keys" THEN k = 0 /\ kk = Ks ELSE k \in {x \in Ks : x >= Cap - 2 \/ (x + h) % (IF MODE = "some" THEN 17 ELSE 2) = 0} /\ kk = {}
Next == ~fin /\ fin' = TRUE /\ UNCHANGED <<h, k, kk>>
Spec == Init /\ [][Next]_vars
(* 14 trits hold every number and 4 every height: the header determines both *)
Reads == (IF MODE = "keys" THEN \A x \in kk : Value(x, 14, 0) = x ELSE Value(k, 14, 0) = k) /\ Value(h, 4, 0) = h
(* two numbers below the capacity differ in a bit the folding uses *)
FoldsApart == MODE # "keys" => \A x \in Wrong : \E i \in 0..(h - 1) : (x \div 2 ^ i) % 2 # (k \div 2 ^ i) % 2
Emit == fin => PrintT("@@" \o ToJson(IF MODE = "keys" THEN [t |-> "farkeys", h |-> h, ks |-> Set(kk)]
                                     ELSE [t |-> "far", h |-> h, k |-> k, v |-> 1 + (k % 7), left |-> Cap - k, wrong |-> Set(Wrong), past |-> Set(Past),
                                           hs |-> Set({x \in {h - 1, h + 1, 40, -1, -40, 0} : x # h})]))
=============================================================================
