------------------------------ MODULE SliceMC ------------------------------
(* Laws of the slice operations of Slice.tla, for all small contents.        *)
EXTENDS Slice
CONSTANT N
VARIABLES x, y
Strs == UNION {[1..n -> 0..2] : n \in 0..N}
MCInit == x \in Strs /\ y \in Strs /\ buf = <<>> /\ sl = <<>> /\ hist = <<>> /\ fin = FALSE
MCSpec == MCInit /\ [][FALSE]_<<vars, x, y>>
Laws ==
  /\ \* taking and dropping split
     \A d \in 0..Len(x), k \in 0..N : d + k <= Len(x) =>
        LET s == [b |-> 1, d |-> d, n |-> Len(x)] IN
        /\ Cells(TakeS(s, k)) \cup Cells(DropS(s, k)) = Cells(s)
        /\ Disjoint(TakeS(s, k), DropS(s, k))
        /\ \* writing touches exactly the named cells
           \A i \in 1..Len(x) : <<1, i>> \notin Cells(TakeS(s, k)) =>
              Write(<<x>>, TakeS(s, k), [j \in 1..k |-> 1])[1][i] = x[i]
  /\ Len(x) = Len(y) => Sub3(Add3(x, y), y) = x
  /\ \* increment is +1 base 3
     ValU(IncU(x)) = (ValU(x) + 1) % (3 ^ Len(x))
  /\ NoOverflow(x) <=> ValU(x) + 1 < 3 ^ Len(x)
  /\ DigitsB(ValB(x), Len(x)) = x
  /\ \A k \in 1..N : LET c == Chunks(x, k) IN \A i \in 1..Len(c) : Len(c[i]) = IF i < Len(c) THEN k ELSE Len(x) - k * (Len(c) - 1)
============================================================================
