----------------------------- MODULE SpongosMC -----------------------------
(* Exhaustive check of the duplex at a small rate.  Replicas of one sponge  *)
(* process the same data: whole takes every operation at once, cut takes it *)
(* in two pieces (with a redundant commit where one is a no-op), peer does  *)
(* the inverse operation on the output; resto is saved and restored.        *)
EXTENDS Spongos
CONSTANTS MAXOPS, MAXLEN
VARIABLES whole, cut, peer, twin, heap, nops, okOut, okPeer, synced

vars == <<whole, cut, peer, twin, heap, nops, okOut, okPeer, synced>>

Init == /\ whole = InitSp /\ cut = InitSp /\ peer = InitSp
        /\ twin = InitSp /\ synced = TRUE
        /\ heap = <<>> /\ nops = 0 /\ okOut = TRUE /\ okPeer = TRUE

Inverse(kind) == CASE kind = "encr" -> "decr" [] kind = "decr" -> "encr" [] OTHER -> kind

(* the twin was restored from an inner part; it is in step again (synced) once a full block was absorbed *)
DataOp(kind, n, k) ==
  LET x == IF kind = "squeeze" THEN Zero(n) ELSE Sym("in", nops + 1, 0, n)
      w == Do(kind, whole, heap, x)
      c1 == Do(kind, cut, w.h, TakeT(x, k))
      c2 == Do(kind, c1.s, c1.h, DropT(x, k))
      px == IF kind \in {"encr", "decr"} THEN w.y ELSE x
      p == Do(Inverse(kind), peer, c2.h, px)
      t == Do(kind, twin, p.h, x)
  IN /\ whole' = w.s /\ cut' = c2.s /\ peer' = p.s /\ twin' = t.s
     /\ heap' = t.h
     /\ okOut' = (w.y = Norm(c1.y \o c2.y))
     /\ okPeer' = (IF kind \in {"encr", "decr"} THEN p.y = Norm(x) ELSE p.y = w.y)
     /\ synced' = (synced \/ (kind = "absorb" /\ whole.pos = 0 /\ twin.pos = 0 /\ n >= RATE))

CommitOp ==
  LET w == Commit(whole, heap)
      c1 == Commit(cut, w.h)
      c2 == Commit(c1.s, c1.h)
      p == Commit(peer, c2.h)
      t == Commit(twin, p.h)
  IN /\ whole' = w.s /\ cut' = c2.s /\ peer' = p.s /\ twin' = t.s /\ heap' = t.h
     /\ okOut' = TRUE /\ okPeer' = TRUE /\ UNCHANGED synced

SaveOp == /\ CanSave(whole)
          /\ LET r == Restore(whole, heap) IN twin' = r.s /\ heap' = r.h
          /\ synced' = FALSE /\ okOut' = TRUE /\ okPeer' = TRUE
          /\ UNCHANGED <<whole, cut, peer>>

Next == /\ nops < MAXOPS /\ nops' = nops + 1
        /\ \/ \E kind \in {"absorb", "squeeze", "encr", "decr"}, n \in 0..MAXLEN : \E k \in 0..n : DataOp(kind, n, k)
           \/ CommitOp
           \/ SaveOp
Spec == Init /\ [][Next]_vars

TypeOK == \A s \in {whole, cut, peer, twin} : WellFormed(s, heap)
SegmentationIndependent == okOut /\ cut = whole
PeerInSync == okPeer /\ peer = whole
RestoredCatchesUp == synced => twin = whole
(* nothing below the first overwritten trit leaks: equal states iff equal nodes, positions and outer parts *)
HeapConsed == \A i, j \in 1..Len(heap) : heap[i] = heap[j] => i = j
============================================================================
