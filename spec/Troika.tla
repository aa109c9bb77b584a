------------------------------- MODULE Troika ------------------------------
(* The Troika permutation and hash, transcribed from its publication.        *)
(* A state is a function 0..728 -> 0..2; trit (slice z, row y, column x) has  *)
(* index 27 z + 9 y + x.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, TroikaRC
Idx == 0..728
SHIFTS == <<19, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4>>
X(i) == i % 9
Y(i) == (i \div 9) % 3
Z(i) == i \div 27
At(x, y, z) == 27 * z + 9 * y + x

(* SubTrytes: three consecutive columns form a tryte *)
SboxOf(a, b, c) == LET d == (a + 2) % 3
                       e == (d * b + c) % 3
                       f == (e * b + d) % 3
                       g == (e * f + b) % 3 IN <<g, f, e>>
Sbox == [k \in 0..26 |-> SboxOf(k % 3, (k \div 3) % 3, k \div 9)]
SubTrytes(st) == ([i \in Idx |-> LET j == i - (i % 3) IN Sbox[st[j] + 3 * st[j + 1] + 9 * st[j + 2]][(i % 3) + 1]])
(* ShiftRows: row y moves by 3y columns;  ShiftLanes: lane (x,y) rolls along z *)
RowSrc == [i \in Idx |-> At((X(i) + 9 - 3 * Y(i)) % 9, Y(i), Z(i))]
LaneSrc == [i \in Idx |-> At(X(i), Y(i), (Z(i) + 27 - SHIFTS[(i % 27) + 1]) % 27)]
Rows(st) == [i \in Idx |-> st[RowSrc[i]]]
Lanes(st) == [i \in Idx |-> st[LaneSrc[i]]]
(* AddColumnParity: the columns to the left in this slice and to the right in the next *)
Parity(st) == ([c \in 0..242 |-> LET z == c \div 9  x == c % 9 IN (st[At(x, 0, z)] + st[At(x, 1, z)] + st[At(x, 2, z)]) % 3])
AddParity(st, p) == [i \in Idx |-> (st[i] + p[9 * Z(i) + ((X(i) + 8) % 9)] + p[9 * ((Z(i) + 1) % 27) + ((X(i) + 1) % 9)]) % 3]
AddConst(st, r) == [i \in Idx |-> IF Y(i) = 0 THEN (st[i] + RC[r][9 * Z(i) + X(i) + 1]) % 3 ELSE st[i]]

ASSUME SboxIsPermutation == \A a, b \in 0..26 : Sbox[a] = Sbox[b] => a = b
ASSUME MovesArePermutations == /\ Cardinality({RowSrc[i] : i \in Idx}) = 729
                               /\ Cardinality({LaneSrc[i] : i \in Idx}) = 729
ASSUME Constants == Len(RC) = 24 /\ \A r \in 1..24 : Len(RC[r]) = 243
============================================================================
