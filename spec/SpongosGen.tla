----------------------------- MODULE SpongosGen -----------------------------
(* Behaviours of the duplex at the real rate, printed as JSON for replay on *)
(* the implementation.  hist records every operation with its symbolic      *)
(* operands and the outputs the specification gives.                        *)
EXTENDS Spongos, Json, SequencesExt
CONSTANTS MODE,      \* "sim", "sys", "isolate", "save", "hash"
          DEPTH      \* operations per random behaviour
VARIABLES sp, heap, hist, fin

vars == <<sp, heap, hist, fin>>
Lens == {0, 1, 2, 3, 26, 80, 81, 162, 242, 243, 244, 300, 485, 486, 487, 700, 728, 729, 972, 973, 1500}
Kinds == {"absorb", "squeeze", "encr", "decr"}
Pick(S) == RandomElement(S)

(* how the implementation is asked to do it; the specification does not distinguish *)
Vias(kind) == CASE kind = "absorb" -> {"slice", "trits", "cut", "single"}
                [] kind = "squeeze" -> {"slice", "trits", "cut", "eq", "neq"}
                [] kind = "encr" -> {"slice", "trits", "inplace", "mut", "cut", "cutin", "samebuf"}
                [] kind = "decr" -> {"slice", "trits", "inplace", "mut", "cut", "cutin", "samebuf"}

Rec(op, i, j, x, y, via, k) == [op |-> op, i |-> i, j |-> j, x |-> x, y |-> y, via |-> via, k |-> k]

DoOp(kind, i, x, via, k) ==
  LET r == Do(kind, sp[i], heap, x)
  IN /\ sp' = [sp EXCEPT ![i] = r.s] /\ heap' = r.h
     /\ hist' = Append(hist, Rec(kind, i, 0, Norm(x), r.y, via, k))
CommitOp(i) ==
  LET r == Commit(sp[i], heap)
  IN sp' = [sp EXCEPT ![i] = r.s] /\ heap' = r.h /\ hist' = Append(hist, Rec("commit", i, 0, <<>>, <<>>, "", 0))
ForkOp(i, j, via) ==
  sp' = [sp EXCEPT ![j] = sp[i]] /\ UNCHANGED heap /\ hist' = Append(hist, Rec("fork", i, j, <<>>, <<>>, via, 0))
JoinOp(i, j) ==
  LET r == Join(sp[i], sp[j], heap)
  IN sp' = [sp EXCEPT ![i] = r.s, ![j] = r.t] /\ heap' = r.h /\ hist' = Append(hist, Rec("join", i, j, <<>>, <<>>, "", 0))
InitOp(i) == sp' = [sp EXCEPT ![i] = InitSp] /\ UNCHANGED heap /\ hist' = Append(hist, Rec("init", i, 0, <<>>, <<>>, "", 0))
(* save sponge i and restore it as sponge j; inner is what is saved *)
SaveOp(i, j) ==
  IF CanSave(sp[i])
  THEN LET r == Restore(sp[i], heap)
       IN sp' = [sp EXCEPT ![j] = r.s] /\ heap' = r.h
          /\ hist' = Append(hist, Rec("save", i, j, <<>>, <<[lc |-> {<<"q", InnerRef(sp[i], heap), 0, 1>>}, len |-> CAP]>>, "ok", 0))
  ELSE UNCHANGED <<sp, heap>> /\ hist' = Append(hist, Rec("save", i, j, <<>>, <<>>, "refused", 0))

Fresh(n) == Sym("in", Len(hist) + 1, 0, n)
Data(kind, n) == IF kind = "squeeze" THEN Zero(n) ELSE Fresh(n)
(* earlier ciphertexts/plaintexts, to be decrypted elsewhere *)
Outs == {h.y : h \in {hist[q] : q \in 1..Len(hist)}} \ {<<>>}
Earlier == {e \in Outs : e # <<>> /\ e[1].lc # {} /\ (\A t \in e[1].lc : t[1] # "q")}

(* RandomElement must be bound once: \E over a singleton does that, LET does not *)
RandomOp ==
  \E c \in {Pick(1..20)}, i \in {Pick(1..3)}, n \in {Pick(Lens)}, kind \in {Pick(Kinds)}, k \in {Pick({1, 2, 3})} :
  \E j \in {Pick((1..3) \ {i})}, via \in {Pick(Vias(kind))} :
    CASE c <= 11 -> DoOp(kind, i, Data(kind, n), via, k)
      [] c = 12 -> IF Earlier = {} THEN DoOp("encr", i, Fresh(n), "slice", k)
                   ELSE \E e \in {Pick(Earlier)}, v \in {Pick(Vias("decr"))} : DoOp("decr", i, e, v, k)
      [] c \in {13, 14, 15} -> CommitOp(i)
      [] c = 16 -> \E v \in {Pick({"fork", "fork_at"})} : ForkOp(i, j, v)
      [] c = 17 -> JoinOp(i, j)
      [] c \in {18, 19} -> SaveOp(i, j)
      [] c = 20 -> IF k = 1 THEN InitOp(i) ELSE ForkOp(i, j, "fork_at")

(* fork/join/init interleaved with short operations *)
IsolateOp ==
  \E c \in {Pick(1..12)}, i \in {Pick(1..3)}, n \in {Pick({1, 81, 243, 486, 600})}, kind \in {Pick(Kinds)} :
  \E j \in {Pick((1..3) \ {i})}, via \in {Pick(Vias(kind))} :
    CASE c <= 5 -> DoOp(kind, i, Data(kind, n), via, 1)
      [] c = 6 -> CommitOp(i)
      [] c \in {7, 8, 9} -> \E v \in {Pick({"fork", "fork_at"})} : ForkOp(i, j, v)
      [] OTHER -> JoinOp(i, j)

(* save often, then absorb a whole block on both *)
SaveStep ==
  LET l == Len(hist) IN
  \E c \in {Pick(1..10)}, i \in {Pick(1..3)}, n \in {Pick({1, 100, 243, 485, 486, 487, 972})}, kind \in {Pick(Kinds)} :
  \E j \in {Pick((1..3) \ {i})}, via \in {Pick(Vias(kind))} :
     IF l > 0 /\ hist[l].op = "save" /\ hist[l].via = "ok" /\ c < 9
     THEN DoOp("absorb", hist[l].i, Fresh(RATE), "slice", 1)
     ELSE IF l > 1 /\ hist[l].op = "absorb" /\ hist[l - 1].op = "save" /\ hist[l-1].i = hist[l].i
     THEN DoOp("absorb", hist[l-1].j, hist[l].x, "slice", 1)
     ELSE IF c <= 3 THEN CommitOp(i)
     ELSE IF c <= 6 THEN SaveOp(i, j)
     ELSE DoOp(kind, i, Data(kind, n), via, 1)

(* hashes: new sponge, pieces, commit, output *)
HashStep ==
  LET last == IF hist = <<>> THEN "init" ELSE hist[Len(hist)].op IN
  \E c \in {Pick(1..4)}, n \in {Pick(Lens)}, v \in {Pick({"slice", "trits"})} :
     CASE last = "squeeze" -> InitOp(1)
       [] last = "commit" -> DoOp("squeeze", 1, Data("squeeze", n), v, 1)
       [] last = "absorb" /\ c = 1 -> CommitOp(1)
       [] OTHER -> DoOp("absorb", 1, Fresh(n), v, 1)

(* systematic: fill to position p (over an earlier block or not), one operation, optional commit *)
SysStep ==
  LET l == Len(hist)
  IN CASE l = 0 -> \E kind \in {"absorb", "squeeze"}, n \in {0, 486} : DoOp(kind, 1, Data(kind, n), "slice", 1)
       [] l = 1 -> \E p \in {0, 1, 242, 243, 244, 484, 485} : DoOp("absorb", 1, Fresh(p), "slice", 1)
       [] l = 2 -> \E kind \in Kinds, n \in {0, 1, 2, 242, 243, 244, 485, 486, 487, 972, 973} :
                     DoOp(kind, 1, Data(kind, n), CASE kind = "squeeze" -> "eq" [] kind = "absorb" -> "cut" [] OTHER -> "cutin", 2)
       [] l = 3 -> CommitOp(1)

Init == sp = <<InitSp, InitSp, InitSp>> /\ heap = <<>> /\ hist = <<>> /\ fin = FALSE
Next == \/ /\ ~fin /\ Len(hist) < DEPTH /\ UNCHANGED fin
           /\ CASE MODE = "sim" -> RandomOp [] MODE = "isolate" -> IsolateOp [] MODE = "save" -> SaveStep [] MODE = "hash" -> HashStep [] MODE = "sys" -> SysStep
        \/ /\ ~fin /\ Len(hist) = DEPTH /\ fin' = TRUE /\ UNCHANGED <<sp, heap, hist>>
Spec == Init /\ [][Next]_vars

WF == \A i \in 1..3 : WellFormed(sp[i], heap)
Emit == fin => PrintT("@@" \o ToJson([t |-> MODE, hist |-> hist, heap |-> heap, sp |-> sp]))
============================================================================
