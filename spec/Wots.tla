-------------------------------- MODULE Wots --------------------------------
(* One-time signatures with hash chains.  A hash value is L digits in         *)
(* -H..H (trytes); the checksum is minus their sum, written with C such       *)
(* digits.  Chain i of the signature stands at position H + digit i; a holder *)
(* of a signature can advance any chain, never go back.                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC
(* balanced digit of v in base b = 2H+1, and the carry *)
BDig(v, b) == LET r == v % b IN IF r > b \div 2 THEN r - b ELSE r
BCarry(v, b) == (v - BDig(v, b)) \div b
RECURSIVE BDigits(_, _, _)
BDigits(v, b, n) == IF n = 0 THEN <<>> ELSE <<BDig(v, b)>> \o BDigits(BCarry(v, b), b, n - 1)
RECURSIVE BValue(_, _)
BValue(d, b) == IF d = <<>> THEN 0 ELSE Head(d) + b * BValue(Tail(d), b)
Sum(m) == FoldLeft(LAMBDA a, x : a + x, 0, m)
Checksum(m, b, c) == BDigits(-Sum(m), b, c)
Positions(m, b, c) == LET d == m \o Checksum(m, b, c) IN [i \in 1..Len(d) |-> d[i] + b \div 2]
(* from a signature of m one can make one of n by advancing chains only *)
Reaches(m, n, b, c) == \A i \in 1..(Len(m) + c) : Positions(m, b, c)[i] <= Positions(n, b, c)[i]
=============================================================================
