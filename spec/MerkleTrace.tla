---------------------------- MODULE MerkleTrace -----------------------------
(* Validates a trace recorded from the code: for each tree, which leaf and   *)
(* merge calls each generation and advance made, and what it reported.       *)
(* Events: gen(t, kind, h), next(t), leaf(i), merge, ret(k, left, path,      *)
(* stored): the end of the running operation.                                *)
EXTENDS Merkle, FiniteSets, Json, IOUtils
VARIABLES l, trees, cur, leafs, merges, halt
vars == <<l, trees, cur, leafs, merges, halt>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
None == [op |-> "", t |-> 0]
Ev == Trace[l]
T(x) == trees[x]
PathOf(ev) == [j \in 1..Len(ev.path) |-> ev.path[j]]
Legal ==
  CASE Ev.e = "gen" -> cur = None /\ Ev.t = Len(trees) + 1
    [] Ev.e = "next" -> cur = None /\ Ev.t \in 1..Len(trees)
    [] Ev.e = "leaf" -> cur # None /\ Ev.i \in 0..(Leaves(T(cur.t).h) - 1)
                        /\ (cur.op = "gen" => Ev.i \notin leafs)
                        /\ (cur.op = "next" => T(cur.t).kind = "traversal" /\ Cardinality(leafs) + merges < StepBound(T(cur.t).h))
    [] Ev.e = "merge" -> cur # None
                        /\ (cur.op = "next" => T(cur.t).kind = "traversal" /\ Cardinality(leafs) + merges < StepBound(T(cur.t).h))
    [] Ev.e = "ret" -> /\ cur # None
                       /\ LET t == T(cur.t) IN
                          /\ cur.op = "gen" => Cardinality(leafs) = Leaves(t.h)
                          /\ Ev.k = t.k /\ Ev.left = (t.k < Leaves(t.h))
                          /\ t.k < Leaves(t.h) => PathOf(Ev) = Path(t.h, t.k)
                          /\ t.kind = "traversal" => Ev.stored <= StoreBound(t.h)
    [] OTHER -> FALSE
(* calls are counted in merges once the set of leafs cannot count a repeated leaf *)
Effect ==
  CASE Ev.e = "gen" -> /\ trees' = Append(trees, [kind |-> Ev.kind, h |-> Ev.h, k |-> 0]) /\ cur' = [op |-> "gen", t |-> Ev.t] /\ leafs' = {} /\ merges' = 0
    [] Ev.e = "next" -> /\ trees' = [trees EXCEPT ![Ev.t].k = Advanced(T(Ev.t).h, @)] /\ cur' = [op |-> "next", t |-> Ev.t] /\ leafs' = {} /\ merges' = 0
    [] Ev.e = "leaf" -> /\ UNCHANGED <<trees, cur>> /\ leafs' = leafs \cup {Ev.i} /\ merges' = IF Ev.i \in leafs THEN merges + 1 ELSE merges
    [] Ev.e = "merge" -> UNCHANGED <<trees, cur, leafs>> /\ merges' = merges + 1
    [] Ev.e = "ret" -> cur' = None /\ UNCHANGED <<trees, leafs, merges>>
Init == l = 1 /\ trees = <<>> /\ cur = None /\ leafs = {} /\ merges = 0 /\ halt = FALSE
Next == /\ ~halt
        /\ IF l > Len(Trace) THEN PrintT("##OK") /\ halt' = TRUE /\ UNCHANGED <<l, trees, cur, leafs, merges>>
           ELSE IF Legal THEN Effect /\ l' = l + 1 /\ halt' = FALSE
           ELSE PrintT("##STUCK " \o ToString(l)) /\ halt' = TRUE /\ UNCHANGED <<l, trees, cur, leafs, merges>>
Spec == Init /\ [][Next]_vars
=============================================================================
