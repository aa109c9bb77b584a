--------------------------------- MODULE Mss ---------------------------------
(* Merkle signature keys and signatures.  A key is named by generator, nonce   *)
(* and height; the key object also has a kind (which tree) and a key number.   *)
(* A signature is a term naming key, number and signed value, changed in some  *)
(* named way or not.  It verifies exactly if unchanged, for that key and value.*)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAXH, DEPTH
VARIABLES objs,   \* private key objects
          sigs,   \* signatures made
          hist, fin
vars == <<objs, sigs, hist, fin>>
Pick(S) == RandomElement(S)
Cap(h) == 2 ^ h
SkOf(o) == [g |-> o.g, nonce |-> o.nonce, h |-> o.h]
Obs(o) == [kind |-> o.kind, g |-> o.g, nonce |-> o.nonce, h |-> o.h, k |-> o.k, left |-> Cap(o.h) - o.k]
R(op, x, o, f) == [op |-> op, x |-> x, obs |-> Obs(o)] @@ f
(* nonces 2i - 1 and 2i are alike but for one trit: many keys of a history are made with such *)
Nonces == 1..12
Nearly(n) == IF n % 2 = 1 THEN n + 1 ELSE n - 1
Gen == \E kd \in {Pick({"complete", "traversal"})}, g \in {Pick(1..2)}, n \in {IF objs = <<>> THEN Pick(Nonces) ELSE Pick({objs[1].nonce, Nearly(objs[1].nonce), Pick(Nonces)})}, h \in {Pick({0, 1, 2} \cup 0..MAXH)} :
       LET o == [kind |-> kd, g |-> g, nonce |-> n, h |-> h, k |-> 0] IN
       objs' = Append(objs, o) /\ hist' = Append(hist, R("gen", Len(objs) + 1, o, <<>>)) /\ UNCHANGED sigs
Adv(o) == [o EXCEPT !.k = IF @ < Cap(o.h) THEN @ + 1 ELSE @]
Step == \E x \in {Pick(1..Len(objs))} : LET o == Adv(objs[x]) IN
       objs' = [objs EXCEPT ![x] = o] /\ hist' = Append(hist, R("next", x, o, [r |-> o.k < Cap(o.h)])) /\ UNCHANGED sigs
Clone == \E x \in {Pick(1..Len(objs))} :
       objs' = Append(objs, objs[x]) /\ hist' = Append(hist, R("clone", x, objs[x], <<>>)) /\ UNCHANGED sigs
(* values: the first ones are special hashes (all -13, all +13, zero), the others random *)
Values == 1..7
Sign == \E x \in {Pick(1..Len(objs))}, v \in {Pick(Values)} : LET o == objs[x] IN
       IF o.k < Cap(o.h)
       THEN sigs' = Append(sigs, [sk |-> SkOf(o), k |-> o.k, v |-> v]) /\ hist' = Append(hist, R("sign", x, o, [v |-> v])) /\ UNCHANGED objs
       ELSE hist' = Append(hist, R("refuse", x, o, [v |-> v])) /\ UNCHANGED <<objs, sigs>>
(* alterations: none | trit: the trit at region (header height 0-3, header number 0-13, part p, path node d) gets +s *)
(*              | cut n trits | extend n trits | header: height and number replaced | fill: part p, or all of them, or the path, of one trit *)
Alterations(s) ==
  {[a |-> "none"]} \cup {[a |-> "cut", n |-> Pick({1, 2, 3, 242, 243, 244, 162, 13122, 100000} \cup 1..700)]}
  \cup {[a |-> "extend", n |-> Pick({1, 9, 243, 486, 1000})]}
  \cup {[a |-> "height", p |-> Pick(0..3), s |-> Pick(1..2)], [a |-> "number", p |-> Pick(0..13), s |-> Pick(1..2)],
        [a |-> "part", p |-> Pick({0, 77, 78, 79, 80} \cup 0..80), q |-> Pick({0, 161} \cup 0..161), s |-> Pick(1..2)],
        [a |-> "header", hh |-> Pick({-40, -1, s.sk.h, s.sk.h + 1, s.sk.h - 1, 40, 20}), kk |-> Pick({-1, 0, Cap(s.sk.h), Cap(s.sk.h) + 1, s.k, s.k + 1, -797162, 2391484})],
        [a |-> "fill", w |-> Pick({"part", "parts", "path", "body"}), p |-> Pick({0, 80} \cup 0..80), s |-> Pick(0..2)],
        [a |-> "swap", p |-> Pick(0..80), q |-> Pick(0..80)]}
  \cup (IF s.sk.h = 0 THEN {} ELSE {[a |-> "node", d |-> Pick(0..(s.sk.h - 1)), q |-> Pick({0, 242} \cup 0..242), s |-> Pick(1..2)], [a |-> "swapnode", d |-> Pick(0..(s.sk.h - 1)), q |-> Pick(0..(s.sk.h - 1))]})
SameSig(s, al) == al.a = "none" \/ (al.a = "fill" /\ al.w = "path" /\ s.sk.h = 0) \/ (al.a = "header" /\ al.hh = s.sk.h /\ al.kk = s.k) \/ (al.a \in {"swap", "swapnode"} /\ (IF al.a = "swap" THEN al.p = al.q ELSE al.d = al.q))
Verify == \E y \in {Pick(1..Len(sigs))}, x \in {Pick(1..Len(objs))}, w \in {Pick(Values)}, c \in {Pick(1..8)} :
       \E al \in {IF c <= 3 THEN [a |-> "none"] ELSE Pick(Alterations(sigs[y]))} :
       LET s == sigs[y] v == IF c \in {1, 4, 5, 6, 7, 8} THEN s.v ELSE w
           xs == {z \in 1..Len(objs) : SkOf(objs[z]) = s.sk}
           z == IF c \in {1, 2, 4, 5, 6, 7} /\ xs # {} THEN CHOOSE z \in xs : TRUE ELSE x
           good == SameSig(s, al) /\ v = s.v
       IN hist' = Append(hist, R("verify", z, objs[z], [y |-> y, v |-> v, alter |-> al, good |-> good /\ SkOf(objs[z]) = s.sk,
                 recover |-> IF good \/ (al.a = "extend" /\ v = s.v) THEN "signer"
                             ELSE IF al.a = "header" /\ (al.hh < 0 \/ al.kk < 0 \/ (al.hh <= 20 /\ al.kk >= Cap(al.hh))) THEN "none"
                             ELSE IF al.a = "cut" THEN "none" ELSE "other",
                 signer |-> s.sk, sigk |-> s.k]))
          /\ UNCHANGED <<objs, sigs>>
Init == objs = <<>> /\ sigs = <<>> /\ hist = <<>> /\ fin = FALSE
Next == \/ /\ ~fin /\ Len(hist) < DEPTH /\ UNCHANGED fin
           /\ \E c \in {Pick(1..16)} :
              IF objs = <<>> \/ (c = 1 /\ Len(objs) < 5) THEN Gen ELSE IF c <= 6 THEN Step ELSE IF c = 7 THEN Clone
              ELSE IF sigs = <<>> \/ c <= 11 THEN Sign ELSE Verify
        \/ ~fin /\ Len(hist) = DEPTH /\ fin' = TRUE /\ UNCHANGED <<objs, sigs, hist>>
Spec == Init /\ [][Next]_vars
TypeOK == \A x \in 1..Len(objs) : objs[x].k \in 0..Cap(objs[x].h)
Monotone == [][\A x \in 1..Len(objs) : objs'[x].k >= objs[x].k /\ SkOf(objs'[x]) = SkOf(objs[x])]_vars
NoUseBeyond == \A y \in 1..Len(sigs) : sigs[y].k < Cap(sigs[y].sk.h)
Emit == fin => PrintT("@@" \o ToJson([t |-> "mss", hist |-> hist]))
==============================================================================
