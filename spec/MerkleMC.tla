------------------------------ MODULE MerkleMC ------------------------------
(* Both algorithms side by side through the whole life of a tree, for every  *)
(* height up to MAXH, against the abstract tree.  Emits each walk.           *)
EXTENDS Merkle, Json
CONSTANTS MAXH, WALKS, FOLDH
VARIABLES h, c, t, calls, extra, walk, fin
vars == <<h, c, t, calls, extra, walk, fin>>
Obs(k) == [k |-> k, left |-> k < Leaves(h), path |-> IF k < Leaves(h) THEN Path(h, k) ELSE <<>>]
Init == h \in 0..MAXH /\ c = CGen(h) /\ LET g == TGen(h) IN t = g.t /\ calls = g.calls
        /\ extra = 0 /\ fin = FALSE /\ walk = IF WALKS THEN <<Obs(0)>> ELSE <<>>
Advance == /\ ~fin /\ extra < 2
           /\ c' = CNext(c) /\ LET n == TNext(t) IN t' = n.t /\ calls' = n.calls
           /\ extra' = IF c.k = Leaves(h) THEN extra + 1 ELSE extra
           /\ walk' = IF WALKS THEN Append(walk, Obs(Advanced(h, c.k))) ELSE walk
           /\ UNCHANGED <<h, fin>>
Stop == extra = 2 /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<h, c, t, calls, extra, walk>>
Next == Advance \/ Stop
Spec == Init /\ [][Next]_vars
Exhausted == c.k = Leaves(h)
Same == /\ c.k = t.k /\ c.h = t.h /\ CRoot(c) = t.root /\ t.root = Root(h)
        /\ ~Exhausted => CPath(c) = t.path /\ t.path = Path(h, c.k)
FoldsOnly == ~Exhausted /\ h <= FOLDH => \A j \in 0..(Leaves(h) - 1) : (Fold(Path(h, c.k), c.k, Leaf(j)) = Root(h)) <=> (j = c.k)
OnePerLevel == ~Exhausted => Len(t.path) = h
Work == IF c.k = 0 THEN /\ Len(LeafCalls(calls)) = Leaves(h) /\ \A i \in 0..(Leaves(h) - 1) : \E x \in 1..Len(calls) : calls[x] = <<"leaf", i>>
        ELSE NCalls(calls) <= StepBound(h) /\ \A x \in 1..Len(calls) : calls[x] # <<>> /\ calls[x][1] = "leaf" => calls[x][2] \in 0..(Leaves(h) - 1)
Storage == Len(TNodes(t)) <= StoreBound(h) /\ (Exhausted => Len(TNodes(t)) = 1 /\ Len(c.nodes) = 1)
Loads == CLoadable(c.h, c.k, Len(c.nodes)) /\ \A n \in 0..(TreeSize(h) + 1) : CLoadable(c.h, c.k, n) => n = Len(c.nodes)
Emit == fin /\ WALKS => PrintT("@@" \o ToJson([t |-> "walk", h |-> h, walk |-> walk, stepbound |-> StepBound(h), storebound |-> StoreBound(h)]))
=============================================================================
