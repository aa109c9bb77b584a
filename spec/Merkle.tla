------------------------------- MODULE Merkle -------------------------------
(* Merkle trees over free terms.  A node of a correct tree is <<level, index>>: *)
(* the term built from leaves 2^level*index .. 2^level*(index+1)-1; any other   *)
(* merge gives a term equal to no node of a tree.                               *)
(*  - the abstract tree: what every implementation reports;                     *)
(*  - the complete tree: one linear list of all nodes;                          *)
(*  - the traversal tree: current path plus one stack per level that prepares   *)
(*    the next path node of that level with two stack updates per advance.      *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Node(d, i) == <<d, i>>
Leaf(i) == Node(0, i)
IsNode(n) == Len(n) = 2
Merge(l, r) == IF IsNode(l) /\ IsNode(r) /\ l[1] = r[1] /\ l[2] % 2 = 0 /\ r[2] = l[2] + 1 THEN Node(l[1] + 1, l[2] \div 2) ELSE <<"bad", l, r>>
Sib(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1
Leaves(h) == 2 ^ h
TreeSize(h) == 2 ^ (h + 1) - 1
(* ---- abstract tree of height h at leaf k (k = 2^h: exhausted) ---- *)
Root(h) == Node(h, 0)
Path(h, k) == [j \in 1..h |-> Node(j - 1, Sib(k \div 2 ^ (j - 1)))]
RECURSIVE Fold(_, _, _)
Fold(path, k, n) == IF path = <<>> THEN n
                    ELSE Fold(Tail(path), k \div 2, IF k % 2 = 0 THEN Merge(n, Head(path)) ELSE Merge(Head(path), n))
Advanced(h, k) == IF k < Leaves(h) THEN k + 1 ELSE k
(* bounds promised for the traversal tree *)
StepBound(h) == 2 * h
StoreBound(h) == (h + 1) * (h + 2)

(* ---- complete tree: [h, k, nodes] ---- *)
CIdx(h, d, i) == TreeSize(h) - TreeSize(d) + i + 1    \* of node i among the 2^d nodes at depth d below the root
CGenNodes(h) == [x \in 1..TreeSize(h) |->
   LET d == CHOOSE d \in 0..h : CIdx(h, d, 0) <= x /\ x <= CIdx(h, d, Leaves(d) - 1) IN Node(h - d, x - CIdx(h, d, 0))]
CGen(h) == [h |-> h, k |-> 0, nodes |-> CGenNodes(h)]
CNext(t) == LET k == Advanced(t.h, t.k) IN
  [h |-> t.h, k |-> k, nodes |-> IF k = Leaves(t.h) THEN <<t.nodes[Len(t.nodes)]>> ELSE t.nodes]
CRoot(t) == t.nodes[Len(t.nodes)]
CPath(t) == [j \in 1..t.h |-> t.nodes[CIdx(t.h, t.h - j + 1, Sib(t.k \div 2 ^ (j - 1)))]]
CStore(t) == <<t.h, t.k, t.nodes>>
CLoadable(h, k, n) == (k = Leaves(h) /\ n = 1) \/ (k < Leaves(h) /\ n = TreeSize(h))

(* ---- traversal tree: [h, k, root, path, st]; a stack is [d, i, s] ---- *)
NoStack(d) == [d |-> d, i |-> 0, s |-> <<>>]
Top(z) == z.s[Len(z.s)]
Finished(z) == z.s # <<>> /\ Top(z)[1] >= z.d
CanMerge(z) == Len(z.s) > 1 /\ Top(z)[1] = z.s[Len(z.s) - 1][1]
(* one update: the stack, and what it called *)
Update(z, h) ==
  IF Finished(z) THEN [z |-> z, call |-> <<>>]
  ELSE IF CanMerge(z) THEN LET n == Len(z.s) IN
         [z |-> [z EXCEPT !.s = Append(SubSeq(z.s, 1, n - 2), Merge(z.s[n - 1], z.s[n]))], call |-> <<"merge">>]
  ELSE IF z.i < Leaves(h) THEN [z |-> [z EXCEPT !.s = Append(z.s, Leaf(z.i)), !.i = z.i + 1], call |-> <<"leaf", z.i>>]
  ELSE [z |-> z, call |-> <<>>]
(* generation runs one stack to the root and keeps the first path and the left siblings *)
TGenStep(g, x) == LET u == Update(g.z, g.h) IN LET t == Top(u.z) IN
  [g EXCEPT !.z = u.z, !.calls = Append(@, u.call),
            !.path = IF t[1] < g.h /\ t[2] = 1 THEN Append(@, t) ELSE @,
            !.st = IF t[1] < g.h /\ t[2] = 0 THEN [@ EXCEPT ![t[1] + 1].s = Append(@, t)] ELSE @]
TGen(h) == LET g == FoldLeft(TGenStep, [h |-> h, z |-> NoStack(h), calls |-> <<>>, path |-> <<>>, st |-> [j \in 1..h |-> NoStack(j - 1)]], [x \in 1..TreeSize(h) |-> x])
           IN [t |-> [h |-> h, k |-> 0, root |-> Top(g.z), path |-> g.path, st |-> g.st], calls |-> g.calls]
Due(k, d) == k % 2 ^ d = 0
Flip(k, d) == IF (k \div 2 ^ d) % 2 = 0 THEN k + 2 ^ d ELSE k - 2 ^ d
TNext(t) == LET k == Advanced(t.h, t.k) IN
  IF k = Leaves(t.h) THEN [t |-> [t EXCEPT !.k = k, !.path = <<>>, !.st = <<>>], calls |-> <<>>]
  ELSE LET fresh == [j \in 1..t.h |-> IF Due(k, j - 1) THEN [d |-> j - 1, i |-> Flip(k + 2 ^ (j - 1), j - 1), s |-> <<>>] ELSE t.st[j]]
           path == [j \in 1..t.h |-> IF Due(k, j - 1) THEN Top(t.st[j]) ELSE t.path[j]]
           u1 == [j \in 1..t.h |-> Update(fresh[j], t.h)]
           u2 == [j \in 1..t.h |-> Update(u1[j].z, t.h)]
       IN [t |-> [t EXCEPT !.k = k, !.path = path, !.st = [j \in 1..t.h |-> u2[j].z]],
           calls |-> [x \in 1..2 * t.h |-> IF x <= t.h THEN u1[x].call ELSE u2[x - t.h].call]]
Cat(ss) == FlattenSeq(ss)
TNodes(t) == t.path \o <<t.root>> \o Cat([j \in 1..Len(t.st) |-> t.st[j].s])
TStore(t) == <<t.h, t.k, TNodes(t)>>
(* shape of the stacks depends on height and leaf number only *)
Shape(t) == [j \in 1..Len(t.st) |-> [d |-> t.st[j].d, i |-> t.st[j].i, s |-> [x \in 1..Len(t.st[j].s) |-> t.st[j].s[x]]]]
NCalls(cs) == Len(SelectSeq(cs, LAMBDA c : c # <<>>))
LeafCalls(cs) == SelectSeq(cs, LAMBDA c : c # <<>> /\ c[1] = "leaf")
=============================================================================
