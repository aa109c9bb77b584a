------------------------------ MODULE CodecGen -----------------------------
(* Codewords, values and strings with what the codes say about them.         *)
EXTENDS Codec, Json
CONSTANTS MODE, K
VARIABLES c
Min(a, b) == IF a < b THEN a ELSE b
Pick(S) == RandomElement(S)

HeadSet == -13..13
Edge == {-13, -1, 0, 1, 13}
RndTail(n) == [i \in 1..n |-> Pick({-13, -12, -2, -1, 0, 1, 2, 12, 13, 5, -7})]
(* every head with every short tail over boundary trytes; long tails filled, with the top tryte varied *)
SizeCases == {<<h, t>> : h \in HeadSet, t \in UNION {[1..n -> Edge] : n \in 0..K}}
Filler == {-13, 0, 13, 1, -1}
LongTail(n, f, top) == [i \in 1..n |-> IF i = n THEN top ELSE f]
LongCases == {<<h, LongTail(n, f, top)>> : h \in 0..14, n \in 1..14, f \in Filler, top \in {-13, -1, 0, 1, 2, 13}}
RndCases == {<<n, [i \in 1..n |-> IF i = n THEN q[n] ELSE RndTail(n)[i]]>> : n \in 1..13, q \in {[m \in 1..13 |-> Pick(-1..13)]}}
SizeRec(p) == [t |-> "size", head |-> p[1], tail |-> p[2],
               trits |-> Trits(p[1], 3), ttrits |-> [i \in 1..Len(p[2]) |-> Trits(p[2][i], 3)],
               ok |-> SizeOk(p[1], p[2]), digits |-> IF SizeOk(p[1], p[2]) THEN SizeDigits(p[1], p[2]) ELSE <<>>]
(* minimal lengths at the limits of every length: digits of (27^k-1)/2 and its successor *)
Limits == {<<k, [i \in 1..k |-> 13]>> : k \in 0..13} \cup {<<k, [i \in 1..k |-> IF i = k THEN 1 ELSE -13]>> : k \in 1..13}

Pow3(k) == 3 ^ k
Range(k) == LET m == (Pow3(k) - 1) \div 2 IN (0 - m)..m
IntRec(k, v) == [t |-> "int", k |-> k, v |-> v, trits |-> Trits(v, k)]
Max18 == 193710244
Near18 == {-Max18, 1 - Max18, Max18, Max18 - 1, 0, 1, -1, 9841, 9842, -9841, -9842, 19683, -19683, 29524, 29525}
          \cup {Pow3(i) : i \in 0..17} \cup {0 - Pow3(i) : i \in 0..17} \cup {(Pow3(i) - 1) \div 2 : i \in 0..18} \cup {(Pow3(i) + 1) \div 2 : i \in 0..17}

(* truncated-division helpers: digit and quotient; i32 arguments, and usize ones as base-27 digit strings *)
I32 == {t \in {-2147483647, -2147483646, -2147473800, 2147473800, 2147483646, 2147483645, 2147483633, -2147483634, 0} \cup Near18
              \cup (-60..60) \cup {2 * Pick(-1073736000..1073736000) + Pick(0..1) : i \in 1..Min(K, 4000)} : TRUE}
ModOk(t, m) == t > -2147483647 - 1 + Half(m) /\ t < 2147483647 - Half(m)
ModRec(t) == [t |-> "mod", v |-> t,
   r |-> [m \in {"3", "27", "19683"} |-> LET b == IF m = "3" THEN 3 ELSE IF m = "27" THEN 27 ELSE 19683
                                         IN IF ModOk(t, b) THEN <<BalDigit(t, b), BalRest(t, b)>> ELSE <<>>]]

Bad == {"a", "z", "0", "8", "@", "[", " ", "-", "_", "/", ":", "a9", "E9"}
StrLens == (0..K) \cup {53, 54, 55, 79, 80, 81, 82, 83, 160, 161, 162, 163, 243, 244, 300}
StrOf(vs) == [i \in 1..Len(vs) |-> CharOf(vs[i])]
RndTrytes(n) == [i \in 1..n |-> Pick(-13..13)]
StrRec(vs, extra) ==   \* a string of trytes and a trit string with `extra` trits after it
  LET ts == [i \in 1..(3 * Len(vs)) |-> Trits(vs[((i - 1) \div 3) + 1], 3)[((i - 1) % 3) + 1]]
      pad == [i \in 1..3 |-> IF i <= Len(extra) THEN extra[i] ELSE 0]
  IN [t |-> "str", s |-> StrOf(vs), trits |-> ts, extra |-> extra,
      es |-> IF extra = <<>> THEN <<>> ELSE <<CharOf(ValueOfTrits(pad))>>]
AlphaRec == [t |-> "alphabet", a |-> Alphabet, v |-> [k \in 1..27 |-> TryteOf(k - 1)], trits |-> [k \in 1..27 |-> Trits(TryteOf(k - 1), 3)]]
Extras == {<<>>} \cup [1..1 -> 0..2] \cup [1..2 -> 0..2]

Items ==
  CASE MODE = "size" -> {SizeRec(p) : p \in SizeCases \cup LongCases \cup Limits \cup RndCases}
    [] MODE = "mod"  -> {ModRec(t) : t \in I32}
    [] MODE = "str"  -> {StrRec(<<v>>, e) : v \in -13..13, e \in Extras} \cup {StrRec(<<v, w>>, <<>>) : v, w \in -13..13}
                        \cup {StrRec(x, e) : x \in {RndTrytes(n) : n \in StrLens}, e \in Extras} \cup {AlphaRec}
Init == IF MODE = "int"
        THEN \/ \E k \in {1, 3, 6, 9} : \E v \in Range(k) : c = IntRec(k, v)
             \/ \E v \in Near18 : c = IntRec(18, v)
             \/ \E i \in 1..K : \E v \in {Pick((0 - Max18)..Max18)} : c = IntRec(18, v)
        ELSE \E i \in Items : c = i
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("@@" \o ToJson(c))
============================================================================
