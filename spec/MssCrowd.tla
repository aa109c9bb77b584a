------------------------------- MODULE MssCrowd ------------------------------
(* Many keys made one after another with one nonce by different generators, or *)
(* by one generator with different nonces: no two are the same key, and each   *)
(* one's signatures verify under it and not under its neighbour.               *)
EXTENDS Mss
CONSTANTS COUNT
VARIABLES by, kd, ht
cvars == <<vars, by, kd, ht>>
Obj(i) == [kind |-> kd, g |-> IF by = "nonce" THEN 100 + i ELSE 1, nonce |-> IF by = "nonce" THEN 20 + ht ELSE 100 + i, h |-> ht, k |-> 0]
Next1(i) == (i % COUNT) + 1
Check(i, j) == R("verify", j, Obj(j), [y |-> i, v |-> 4, alter |-> [a |-> "none"], good |-> i = j, recover |-> "signer", signer |-> SkOf(Obj(i)), sigk |-> 0])
Life == [i \in 1..COUNT |-> R("gen", i, Obj(i), <<>>)] \o [i \in 1..COUNT |-> R("sign", i, Obj(i), [v |-> 4])]
        \o [i \in 1..COUNT |-> Check(i, i)] \o [i \in 1..COUNT |-> Check(i, Next1(i))]
CInit == by \in {"nonce", "generator"} /\ kd \in {"complete", "traversal"} /\ ht \in {0, 1} /\ Init
CNext == ~fin /\ fin' = TRUE /\ hist' = TLCEval(Life) /\ UNCHANGED <<objs, sigs, by, kd, ht>>
CSpec == CInit /\ [][CNext]_cvars
Apart == \A i, j \in 1..COUNT : i # j => SkOf(Obj(i)) # SkOf(Obj(j))
==============================================================================
