----------------------------- MODULE TroikaGen -----------------------------
(* Evaluations of the permutation, and behaviours of the hash: a hash object *)
(* holds the message absorbed so far; once finalized, squeezing continues    *)
(* the one stream of that message.                                           *)
EXTENDS Troika
CONSTANTS MODE, K
VARIABLES msg, phase, outn, hist, fin,
          st, par, round, stage   \* permutation: one step per transformation
vars == <<msg, phase, outn, hist, fin, st, par, round, stage>>
pvars == <<st, par, round, stage>>
Pick(S) == RandomElement(S)

Unit(i, v) == [j \in Idx |-> IF j = i THEN v ELSE 0]
PermInputs == {[j \in Idx |-> v] : v \in 0..2} \cup {Unit(i, v) : i \in {0, 8, 9, 26, 27, 242, 243, 485, 486, 728}, v \in {1, 2}}
              \cup {[j \in Idx |-> Pick(0..2)] : i \in 1..K}
SeqOf(x) == [i \in 1..729 |-> x[i - 1]]

(* hash behaviours; messages are sequences of <<input, offset, length>> *)
Lens == {0, 1, 2, 80, 81, 241, 242, 243, 244, 300, 485, 486, 487, 729, 730}
Rec(op, n, id) == [op |-> op, n |-> n, id |-> id, msg |-> msg', off |-> outn]
HashOp ==
  \E c \in {Pick(1..10)}, n \in {Pick(Lens)} :
    CASE phase = "absorb" /\ c <= 6 -> /\ msg' = (IF n = 0 THEN msg ELSE Append(msg, <<Len(hist) + 1, n>>))
                                       /\ UNCHANGED <<phase, outn>> /\ hist' = Append(hist, Rec("absorb", n, Len(hist) + 1))
      [] phase = "absorb" /\ c \in {7, 8, 9} -> /\ phase' = "squeeze" /\ UNCHANGED msg /\ outn' = 0 /\ hist' = Append(hist, Rec("finalize", 0, 0))
      [] phase = "squeeze" /\ c <= 8 -> /\ outn' = outn + n /\ UNCHANGED <<msg, phase>> /\ hist' = Append(hist, Rec("squeeze", n, 0))
      [] OTHER -> /\ msg' = <<>> /\ phase' = "absorb" /\ outn' = 0 /\ hist' = Append(hist, Rec("reset", 0, 0))
(* different messages: <<input, length, position of a changed trit, zeros appended>> *)
Messages == {<<0, 0, 0, z>> : z \in 0..(2 * K)} \cup {<<0, 0, 0, z>> : z \in {242, 243, 244, 485, 486, 487, 729}}
            \cup {<<a, l, f, z>> : a \in 1..2, l \in {1, 80, 242, 243, 244, 486, 500}, f \in {0, 1, 2, 40, 242, 243, 244, 486}, z \in {0, 1, 2, 3, 243}}
Valid == {m \in Messages : m[3] <= m[2]}
PermStep ==
  /\ round <= 24 /\ UNCHANGED <<msg, phase, outn, hist, fin>>
  /\ stage' = (stage + 1) % 6
  /\ round' = IF stage = 5 THEN round + 1 ELSE round
  /\ par' = IF stage = 3 THEN Parity(st) ELSE par
  /\ st' = CASE stage = 0 -> SubTrytes(st) [] stage = 1 -> Rows(st) [] stage = 2 -> Lanes(st) [] stage = 3 -> st
              [] stage = 4 -> AddParity(st, par) [] stage = 5 -> AddConst(st, round)
Init == /\ phase = "absorb" /\ outn = 0 /\ fin = FALSE /\ hist = <<>> /\ round = 1 /\ stage = 0 /\ par = <<>>
        /\ IF MODE = "distinct" THEN msg = <<>> /\ st = <<>> ELSE IF MODE = "perm" THEN \E x \in PermInputs : msg = SeqOf(x) /\ st = [i \in Idx |-> msg[i + 1]] ELSE msg = <<>> /\ st = <<>>
Next == IF MODE = "distinct" THEN FALSE /\ UNCHANGED vars ELSE IF MODE = "perm" THEN PermStep
        ELSE /\ UNCHANGED pvars
             /\ \/ ~fin /\ Len(hist) < K /\ UNCHANGED fin /\ HashOp
                \/ ~fin /\ Len(hist) = K /\ fin' = TRUE /\ UNCHANGED <<msg, phase, outn, hist>>
Spec == Init /\ [][Next]_vars
Emit == IF MODE = "perm" THEN round = 25 => PrintT("@@" \o ToJson([t |-> "perm", x |-> msg, y |-> SeqOf(st)]))
        ELSE IF MODE = "distinct" THEN PrintT("@@" \o ToJson([t |-> "distinct", msgs |-> Valid]))
        ELSE fin => PrintT("@@" \o ToJson([t |-> "hash", hist |-> hist]))
============================================================================
