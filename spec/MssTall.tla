------------------------------- MODULE MssTall ------------------------------
(* The whole life of a tall key: at every number (or every STRIDE-th, with the *)
(* last ones) it signs, the signature is verified as made, with a node of its  *)
(* path altered, and under a neighbouring number; then it advances, to and     *)
(* beyond the end.                                                             *)
EXTENDS Mss, SequencesExt
CONSTANTS HEIGHTS, STRIDE, WINDOW
VARIABLES o0, from
tvars == <<vars, o0, from>>
Hot(k, h) == k % STRIDE = 0 \/ k + 2 >= Cap(h) \/ (\E d \in 0..h : k = 2 ^ d \/ k = 2 ^ d - 1)
At(k) == [o0 EXCEPT !.k = k]
Val(k) == 1 + (k % 7)
Check(k, n, al, good, rec) == R("verify", 1, At(k), [y |-> n, v |-> Val(k), alter |-> al, good |-> good, recover |-> rec, signer |-> SkOf(o0), sigk |-> k])
OneKey(k, n) == <<R("sign", 1, At(k), [v |-> Val(k)]), Check(k, n, [a |-> "none"], TRUE, "signer"),
                  Check(k, n, [a |-> "node", d |-> k % o0.h, q |-> (k * 37) % 243, s |-> 1 + (k % 2)], FALSE, "other"),
                  Check(k, n, [a |-> "header", hh |-> o0.h, kk |-> IF k = 0 THEN Cap(o0.h) - 1 ELSE k - 1], FALSE, "other")>>
(* one case walks WINDOW numbers, skipping to the first by advances *)
Len2 == WINDOW
Walk == LET a == from b == IF from + Len2 > Cap(o0.h) THEN Cap(o0.h) ELSE from + Len2
            adv(k) == R("next", 1, Adv(At(k)), [r |-> k + 1 < Cap(o0.h)])
            go == FoldLeft(LAMBDA acc, k : IF Hot(k, o0.h) THEN [h |-> acc.h \o OneKey(k, acc.n + 1) \o <<adv(k)>>, n |-> acc.n + 1] ELSE [acc EXCEPT !.h = @ \o <<adv(k)>>],
                        [h |-> <<>>, n |-> 0], [i \in 1..(b - a) |-> a + i - 1])
        IN <<R("gen", 1, o0, <<>>)>> \o [i \in 1..a |-> adv(i - 1)] \o go.h
           \o (IF b = Cap(o0.h) THEN <<R("refuse", 1, At(b), [v |-> 4]), R("next", 1, At(b), [r |-> FALSE]), R("refuse", 1, At(b), [v |-> 5])>> ELSE <<>>)
TInit == /\ \E h \in HEIGHTS, kd \in {"complete", "traversal"} : o0 = [kind |-> kd, g |-> 1, nonce |-> 1, h |-> h, k |-> 0]
         /\ from \in {Len2 * i : i \in 0..((Cap(o0.h) - 1) \div Len2)}
         /\ Init
TNext == ~fin /\ fin' = TRUE /\ hist' = TLCEval(Walk) /\ UNCHANGED <<objs, sigs, o0, from>>
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
