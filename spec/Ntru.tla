-------------------------------- MODULE Ntru --------------------------------
(* Key encapsulation over symbolic terms.  A key pair is named by the          *)
(* generator and nonce it was made from.  A sponge is the sequence of what     *)
(* went into it.  A capsule is a term naming key pair, session key, generator, *)
(* nonce and the sponge it was made on; it opens exactly if it is unaltered    *)
(* and private key and sponge are those.  Making and opening it put the same   *)
(* event into both sponges.  RingMC shows on small rings that the equations    *)
(* behind the terms decrypt.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, MODE, FROM
VARIABLES pairs,   \* key pairs
          sps,     \* sponges
          caps,    \* capsules
          hist, fin
vars == <<pairs, sps, caps, hist, fin>>
Q == 12289
N == 1024
Pick(S) == RandomElement(S)
Dead == <<[e |-> "dead", n |-> 0, len |-> 0]>>
Live(s) == s # Dead
Rec(op, f) == [op |-> op] @@ f
Lens == {0, 1, 80, 81, 242, 243, 244, 485, 486, 487, 700, 972}
Out(h) == hist' = Append(hist, h)
GenPair == \E g \in {Pick(1..3)}, n \in {Pick(1..4)} : pairs' = Append(pairs, [g |-> g, n |-> n]) /\ Out(Rec("gen", [g |-> g, n |-> n])) /\ UNCHANGED <<sps, caps>>
NewSp == sps' = Append(sps, <<>>) /\ Out(Rec("sponge", [x |-> 0])) /\ UNCHANGED <<pairs, caps>>
ForkSp == \E s \in {Pick(1..Len(sps))} : sps' = Append(sps, sps[s]) /\ Out(Rec("fork", [s |-> s])) /\ UNCHANGED <<pairs, caps>>
Feed(s, e) == sps' = [sps EXCEPT ![s] = IF Live(@) THEN Append(@, e) ELSE @]
Absorb == \E s \in {Pick(1..Len(sps))}, a \in {Pick(1..3)}, l \in {Pick(Lens)} :
   /\ (IF l = 0 THEN sps' = sps ELSE Feed(s, [e |-> "absorb", n |-> a, len |-> l])) /\ Out(Rec("absorb", [s |-> s, a |-> a, len |-> l])) /\ UNCHANGED <<pairs, caps>>
Encr == \E x \in {Pick(1..Len(pairs))}, s \in {Pick(1..Len(sps))}, k \in {Pick(1..5)}, g \in {Pick(1..2)}, n \in {Pick(1..4)} :
   /\ Live(sps[s])
   /\ LET t == [pair |-> pairs[x], k |-> k, g |-> g, n |-> n, st |-> sps[s]] IN
      /\ caps' = Append(caps, t)
      /\ Feed(s, [e |-> "capsule", n |-> CHOOSE i \in 1..(Len(caps) + 1) : (IF i > Len(caps) THEN t ELSE caps[i]) = t, len |-> 0])
   /\ Out(Rec("encr", [p |-> x, s |-> s, k |-> k, g |-> g, n |-> n])) /\ UNCHANGED pairs
(* alterations: a trit; a coefficient by a small or large amount, or by plus or minus Q if that can be written *)
Alter == {[a |-> "none"], [a |-> "none"], [a |-> "trit", i |-> Pick(0..9215), d |-> Pick(1..2)],
          [a |-> "coef", i |-> Pick({0, 1, 242, 243, 244, 485, 486, 1022, 1023} \cup 0..1023), d |-> Pick({1, -1, 3, -3, 2, -2, 9, 4096, -4096, 6144})],
          [a |-> "alias", i |-> Pick({0, 1, 242, 243, 1023} \cup 0..1023), d |-> Pick({1, -1})],
          [a |-> "set", i |-> Pick({0, 1, 242, 243, 1023} \cup 0..1023), d |-> Pick({6145, -6145, 9841, -9841, 8000})],
          [a |-> "swap", i |-> Pick(0..511), d |-> Pick(512..1023)], [a |-> "negate", i |-> 0, d |-> 0], [a |-> "shift", i |-> 0, d |-> 0], [a |-> "zero", i |-> 0, d |-> 0]}
Twin(sp) == {i \in 1..Len(sps) : sps[i] = sp}
Decr == \E y \in {Pick(1..Len(caps))}, c \in {Pick(1..8)}, x \in {Pick(1..Len(pairs))}, s0 \in {Pick(1..Len(sps))}, a0 \in {Pick(Alter)} :
   LET t == caps[y]
       p == IF c # 1 THEN (CHOOSE i \in 1..Len(pairs) : pairs[i] = t.pair) ELSE x
       s == IF c # 2 /\ Twin(t.st) # {} THEN (CHOOSE i \in Twin(t.st) : TRUE) ELSE s0
       a == IF c <= 5 THEN [a |-> "none"] ELSE a0
       ok == a.a = "none" /\ pairs[p] = t.pair /\ sps[s] = t.st
   IN /\ sps' = [sps EXCEPT ![s] = IF ~Live(@) THEN Dead ELSE IF ok THEN Append(@, [e |-> "capsule", n |-> CHOOSE i \in 1..Len(caps) : caps[i] = t, len |-> 0]) ELSE Dead]
      /\ (IF Live(sps[s]) THEN Out(Rec("decr", [y |-> y, p |-> p, s |-> s, alter |-> a, ok |-> ok, k |-> t.k])) ELSE Out(Rec("skip", [x |-> 0]))) /\ UNCHANGED <<pairs, caps>>
(* publish: the public key of a pair as trits, possibly altered, offered to every constructor *)
Pub == \E x \in {Pick(1..Len(pairs))}, c \in {Pick(1..3)}, a \in {Pick(Alter \cup {[a |-> "size", i |-> 0, d |-> Pick({-9216, -9215, -81, -9, -1, 1, 9, 9216})], [a |-> "root", i |-> Pick(1..1023), d |-> Pick(0..1023)]})} :
   Out(Rec("pub", [p |-> x, alter |-> IF c = 1 THEN [a |-> "none"] ELSE a])) /\ UNCHANGED <<pairs, sps, caps>>
(* sponges hold the same stream exactly if their terms are the same *)
Class(i) == IF Live(sps[i]) THEN CHOOSE j \in 1..Len(sps) : sps[j] = sps[i] ELSE 0
Compare == Out(Rec("compare", [class |-> [i \in 1..Len(sps) |-> Class(i)]])) /\ UNCHANGED <<pairs, sps, caps>>
InitSim == MODE = "sim" /\ pairs = <<>> /\ sps = <<>> /\ caps = <<>> /\ hist = <<>> /\ fin = FALSE
Next == \/ /\ ~fin /\ Len(hist) < DEPTH /\ UNCHANGED fin
           /\ \E c \in {Pick(1..24)} :
              IF Len(pairs) < 2 THEN GenPair ELSE IF Len(sps) < 2 THEN NewSp
              ELSE IF c = 1 /\ Len(pairs) < 5 THEN GenPair ELSE IF c = 2 /\ Len(sps) < 8 THEN NewSp
              ELSE IF c <= 7 /\ Len(sps) < 12 THEN ForkSp ELSE IF c <= 10 THEN Absorb ELSE IF c <= 13 \/ caps = <<>> THEN Encr \/ Absorb ELSE IF c <= 19 THEN Decr ELSE IF c <= 22 THEN Pub ELSE Compare
        \/ ~fin /\ Len(hist) = DEPTH /\ fin' = TRUE /\ UNCHANGED <<pairs, sps, caps, hist>>
(* every trit of one capsule / every coefficient as a root *)
SpecSim == InitSim /\ [][Next]_vars
Init1 == pairs = <<>> /\ sps = <<>> /\ caps \in FROM..(IF MODE = "sweep" THEN N - 1 ELSE Q \div 2) /\ hist = <<>> /\ fin = FALSE
Stay == FALSE /\ UNCHANGED vars
SpecOne == Init1 /\ [][Stay]_vars
Mod(x) == ((x % Q) + Q) % Q
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 0 THEN LET b == Pow(a, n \div 2) IN Mod(b * b) ELSE Mod(a * Pow(a, n - 1))
(* x - c is invertible modulo x^N + 1 unless c^N = -1 *)
Invertible(c) == Pow(Mod(c), N) # Q - 1
Confined == MODE = "sim" => \A i \in 1..Len(caps) : \E p \in 1..Len(pairs) : pairs[p] = caps[i].pair
EmitSim == fin => PrintT("@@" \o ToJson([t |-> "sim", hist |-> hist]))
EmitSweep == PrintT("@@" \o ToJson([t |-> "sweep", i |-> caps, trits |-> [q \in 1..18 |-> <<(9 * caps) + ((q - 1) \div 2), 1 + ((q - 1) % 2)>>], shifts |-> <<3, -3, 27, -27, 3000, -3000, Q, 0 - Q>>]))
EmitRoots == PrintT("@@" \o ToJson([t |-> "root", c |-> caps, inv |-> Invertible(caps)]))
=============================================================================
