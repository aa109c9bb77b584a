----------------------------- MODULE MerkleGen ------------------------------
(* Programs over several trees and stored tuples: generation, any number of  *)
(* advances, storing, loading (also malformed), cloning, comparing.          *)
EXTENDS Merkle, Json
CONSTANTS MAXH, DEPTH
VARIABLES trees,    \* live objects: kind, height, leaf number, leaf function
          stored,   \* stored tuples: of which kind of tree, height, leaf number, leaf function
          hist, fin
vars == <<trees, stored, hist, fin>>
Pick(S) == RandomElement(S)
Kinds == {"complete", "traversal"}
Obs(t) == [kind |-> t.kind, h |-> t.h, k |-> t.k, f |-> t.f, left |-> t.k < Leaves(t.h), path |-> IF t.k < Leaves(t.h) THEN Path(t.h, t.k) ELSE <<>>]
Rec(op, x, y, n, t) == [op |-> op, x |-> x, y |-> y, n |-> n, obs |-> Obs(t)]
Adv(h, k, n) == IF k + n > Leaves(h) THEN Leaves(h) ELSE k + n
Gen == \E kd \in {Pick(Kinds)}, h \in {Pick({0, 1, 2, 3} \cup 0..MAXH)}, f \in {Pick(1..2)} :
         LET t == [kind |-> kd, h |-> h, k |-> 0, f |-> f] IN
         /\ trees' = Append(trees, t) /\ hist' = Append(hist, Rec("gen", Len(trees) + 1, 0, 0, t)) /\ UNCHANGED stored
Step == \E x \in {Pick(1..Len(trees))} : \E n \in {Pick({1, 2, 3, 5} \cup {2 ^ (IF trees[x].h = 0 THEN 0 ELSE Pick(0..trees[x].h)), Leaves(trees[x].h) - trees[x].k, Leaves(trees[x].h) - trees[x].k - 1, Leaves(trees[x].h) - trees[x].k + 2})} :
         LET m == IF n <= 0 THEN 1 ELSE n t == [trees[x] EXCEPT !.k = Adv(@.h, @.k, m)] IN
         /\ trees' = [trees EXCEPT ![x].k = Adv(trees[x].h, trees[x].k, m)]
         /\ hist' = Append(hist, Rec("next", x, 0, m, [trees[x] EXCEPT !.k = Adv(trees[x].h, trees[x].k, m)])) /\ UNCHANGED stored
Clone == \E x \in {Pick(1..Len(trees))} :
         trees' = Append(trees, trees[x]) /\ hist' = Append(hist, Rec("clone", x, Len(trees) + 1, 0, trees[x])) /\ UNCHANGED stored
Store == \E x \in {Pick(1..Len(trees))} :
         stored' = Append(stored, trees[x]) /\ hist' = Append(hist, Rec("store", x, Len(stored) + 1, 0, trees[x])) /\ UNCHANGED trees
Load == \E y \in {Pick(1..Len(stored))} :
         trees' = Append(trees, stored[y]) /\ hist' = Append(hist, Rec("load", Len(trees) + 1, y, 0, stored[y])) /\ UNCHANGED stored
(* n < 0: that many nodes fewer, n > 0: more; beyond: the leaf number is larger than the tree *)
LoadBad == \E y \in {Pick(1..Len(stored))}, n \in {Pick({-1000000, -3, -2, -1, 1, 2, 3, 50})}, b \in {Pick({"loadlen", "loadbeyond"})} :
         hist' = Append(hist, Rec(b, 0, y, n, stored[y])) /\ UNCHANGED <<trees, stored>>
Compare == \E x \in {Pick(1..Len(trees))}, y \in {Pick(1..Len(trees))} :
         hist' = Append(hist, Rec(IF trees[x] = trees[y] THEN "equal" ELSE "differ", x, y, 0, trees[x])) /\ UNCHANGED <<trees, stored>>
Init == trees = <<>> /\ stored = <<>> /\ hist = <<>> /\ fin = FALSE
Next == \/ /\ ~fin /\ Len(hist) < DEPTH /\ UNCHANGED fin
           /\ \E c \in {Pick(1..14)} :
              IF trees = <<>> \/ (c = 1 /\ Len(trees) < 6) THEN Gen ELSE IF c <= 7 THEN Step ELSE IF c = 8 THEN Clone ELSE IF c = 9 THEN Compare
              ELSE IF stored = <<>> \/ c <= 11 THEN Store ELSE IF c <= 13 THEN Load ELSE LoadBad
        \/ ~fin /\ Len(hist) = DEPTH /\ fin' = TRUE /\ UNCHANGED <<trees, stored, hist>>
Spec == Init /\ [][Next]_vars
TypeOK == \A x \in 1..Len(trees) : trees[x].k \in 0..Leaves(trees[x].h)
Emit == fin => PrintT("@@" \o ToJson([t |-> "prog", hist |-> hist]))
=============================================================================
