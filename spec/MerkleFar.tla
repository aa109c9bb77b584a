------------------------------ MODULE MerkleFar ------------------------------
(* Tall trees: the whole walk is made; the paths are compared at the numbers  *)
(* next to every carry, and in between only folded.  At some of them the tree *)
(* is stored, loaded and both go on.                                          *)
EXTENDS Merkle, FiniteSets, Json
CONSTANTS HEIGHTS, SAVES
VARIABLES h, fin
Corner == {2 ^ i : i \in 0..(h - 1)} \cup {2 ^ i + 2 ^ (h - 1) : i \in 0..(h - 1)} \cup {3 ^ i : i \in 0..8} \cup {Leaves(h), Leaves(h) - 2}
Ks == {x \in UNION {{c - 1, c, c + 1} : c \in Corner} \cup {(i * 104729) % Leaves(h) : i \in 1..40} : x >= 0 /\ x < Leaves(h)}
Saves == {x \in Ks : (x * 7 + h) % SAVES = 0} \cup {Leaves(h)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
Init == h \in HEIGHTS /\ fin = FALSE
Next == ~fin /\ fin' = TRUE /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, fin>>
Folds == \A k \in Ks : Fold(Path(h, k), k, Leaf(k)) = Root(h) /\ Fold(Path(h, k), k, Leaf(Sib(k))) # Root(h)
Emit == fin => PrintT("@@" \o ToJson([t |-> "far", h |-> h, stepbound |-> StepBound(h), storebound |-> StoreBound(h), saves |-> Sorted(Saves),
                                      at |-> LET s == Sorted(Ks) IN [i \in 1..Len(s) |-> [k |-> s[i], path |-> Path(h, s[i])]]]))
==============================================================================
