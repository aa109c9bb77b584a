-------------------------------- MODULE Prng -------------------------------
(* The generator: a key; every request names a list of nonces and a list of  *)
(* output sizes.  The output is the prefix of Stream(key \o nonces), cut     *)
(* into consecutive parts; Stream is a free function, so different arguments *)
(* give unrelated streams.  Generation does not change the generator.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, KEYS
VARIABLES gens,   \* live generators: the key of each
          hist, fin
vars == <<gens, hist, fin>>
Pick(S) == RandomElement(S)
(* a string: the first len trits of an atom, with the trit at position flip changed (0: none), and zeros appended *)
Str(a, len, flip, z) == [a |-> a, len |-> len, flip |-> flip, z |-> z]
NonceLens == {0, 1, 3, 81, 162, 241, 242, 243, 244, 245, 300, 486, 487, 700, 729, 730, 1215, 1500}
OutLens == {0, 1, 81, 242, 243, 244, 485, 486, 487, 729, 1000, 1024, 4097, 13122}
RndNonces ==  \* shared atoms, so that equal and nearly equal strings meet
  \E m \in {Pick({0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 11})}, a \in {Pick(1..3)}, l \in {[i \in 1..11 |-> Pick(NonceLens)]}, f \in {[i \in 1..11 |-> Pick(0..3)]}, z \in {[i \in 1..11 |-> Pick({0, 0, 0, 1, 3, 81})]} :
    \E p \in {[i \in 1..11 |-> IF f[i] = 1 /\ l[i] > 0 THEN Pick(1..l[i]) ELSE IF f[i] = 2 THEN l[i] ELSE 0]} :
      \E ns \in {[i \in 1..m |-> Str(a, l[i], p[i], z[i])]}, g \in {Pick(1..Len(gens))},
         os \in {[i \in 1..9 |-> Pick(OutLens)]}, c \in {Pick({1, 2, 3, 4, 5, 9})}, mode \in {Pick({"gen", "gen_trits", "gens", "genss", "split"})} :
        hist' = Append(hist, [op |-> mode, g |-> g, key |-> gens[g], ns |-> ns, os |-> SubSeq(os, 1, IF mode = "genss" THEN c ELSE 1), k |-> c])
(* an earlier request (often the last) once more, of this or of another generator, in this or in another form, or with one nonce changed, left out or repeated *)
Asked == {i \in 1..Len(hist) : hist[i].op \in {"gen", "gen_trits", "gens", "genss", "split"}}
Changed(ns, how, i, p) ==
  CASE how = "same" \/ ns = <<>> -> ns [] how = "flip" -> [ns EXCEPT ![i].flip = IF ns[i].len = 0 THEN 0 ELSE IF @ = 0 THEN 1 + (p % ns[i].len) ELSE 0]
    [] how = "less" -> [j \in 1..(Len(ns) - 1) |-> IF j < i THEN ns[j] ELSE ns[j + 1]] [] how = "twice" -> SubSeq(ns, 1, i) \o SubSeq(ns, i, Len(ns))
    [] how = "swap" -> [ns EXCEPT ![i] = ns[1], ![1] = ns[i]]
Latest == CHOOSE i \in Asked : \A j \in Asked : j <= i
Again == Asked # {} /\ \E r \in {Pick(1..2)}, e \in {Pick(1..3)}, o \in {Pick(1..Len(gens))}, k \in {Pick(1..2)}, hw \in {Pick({"same", "flip", "less", "twice", "swap"})}, md \in {Pick({"gen", "gen_trits", "gens", "genss", "split"})}, p \in {Pick(0..1500)}, c \in {Pick({1, 2, 4, 9})},
            os \in {[n \in 1..9 |-> Pick(OutLens)]} :
            \E i \in {IF r = 1 THEN Latest ELSE Pick(Asked)} :
            \E ns \in {hist[i].ns}, j \in {Pick(1..(IF hist[i].ns = <<>> THEN 1 ELSE Len(hist[i].ns)))}, mode \in {IF k = 1 THEN hist[i].op ELSE md},
               g \in {IF e = 1 THEN hist[i].g ELSE o}, how \in {IF e = 2 THEN "same" ELSE hw} :
              hist' = Append(hist, [hist[i] EXCEPT !.op = mode, !.g = g, !.key = gens[g], !.ns = Changed(ns, how, j, p), !.os = SubSeq(os, 1, IF mode = "genss" THEN c ELSE 1), !.k = c])
Gen == (\E c \in {Pick(1..5)} : IF c <= 2 /\ Asked # {} THEN Again ELSE RndNonces) /\ UNCHANGED gens
New == \E k \in {Pick(1..KEYS)}, f \in {Pick({0, 0, 1, 2, 120, 241, 242, 243})}, c \in {Pick(1..3)} :
         IF c = 1 /\ Len(gens) > 0
         THEN \E g \in {Pick(1..Len(gens))} : gens' = Append(gens, gens[g]) /\ hist' = Append(hist, [op |-> "clone", g |-> g, key |-> gens[g], ns |-> <<>>, os |-> <<>>, k |-> 0])
         ELSE gens' = Append(gens, Str(k, 243, f, 0)) /\ hist' = Append(hist, [op |-> "new", g |-> 0, key |-> Str(k, 243, f, 0), ns |-> <<>>, os |-> <<>>, k |-> 0])
Init == gens = <<>> /\ hist = <<>> /\ fin = FALSE
Next == \/ ~fin /\ Len(hist) < DEPTH /\ UNCHANGED fin /\ \E c \in {Pick(1..6)} : IF gens = <<>> \/ c = 1 THEN New ELSE Gen
        \/ ~fin /\ Len(hist) = DEPTH /\ fin' = TRUE /\ UNCHANGED <<gens, hist>>
Spec == Init /\ [][Next]_vars
Unchanged == [][\A g \in 1..Len(gens) : gens'[g] = gens[g]]_vars
Emit == fin => PrintT("@@" \o ToJson([t |-> "prng", hist |-> hist]))
============================================================================
