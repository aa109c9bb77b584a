------------------------------- MODULE Slice -------------------------------
(* Trit slices: a slice is a range [d, n) of a buffer of trits.  Every       *)
(* operation is given as a function on ranges or on the whole buffer, so     *)
(* that what is not named stays as it was.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NBUF, NSL, BIG, DEPTH
VARIABLES buf,   \* sequence of buffers (sequences of trits 0..2)
          sl,    \* sequence of slices [b, d, n]
          hist, fin
vars == <<buf, sl, hist, fin>>

Pick(S) == RandomElement(S)
Min2(a, b) == IF a < b THEN a ELSE b
Size(s) == s.n - s.d
Cont(s) == [i \in 1..Size(s) |-> buf[s.b][s.d + i]]
TakeS(s, k) == [s EXCEPT !.n = s.d + k]
DropS(s, k) == [s EXCEPT !.d = s.d + k]
(* ranges of trits named by a slice *)
Cells(s) == {<<s.b, s.d + i>> : i \in 1..Size(s)}
Disjoint(s, t) == Cells(s) \cap Cells(t) = {}
SamePlace(s, t) == s.b = t.b /\ s.d = t.d
(* buffer contents after writing x at the start of s *)
Write(bs, s, x) == [bs EXCEPT ![s.b] = [i \in 1..Len(bs[s.b]) |->
                      IF i > s.d /\ i <= s.d + Len(x) THEN x[i - s.d] ELSE bs[s.b][i]]]

(* -------- balanced ternary *)
Bal(t) == IF t = 2 THEN -1 ELSE t
RECURSIVE ValB(_)
ValB(x) == IF x = <<>> THEN 0 ELSE Bal(Head(x)) + 3 * ValB(Tail(x))
RECURSIVE DigitsB(_, _)
DigitsB(v, k) == IF k = 0 THEN <<>>
                 ELSE LET r == v % 3 IN <<r>> \o DigitsB((v - Bal(r)) \div 3, k - 1)
RECURSIVE ValU(_)
ValU(x) == IF x = <<>> THEN 0 ELSE Head(x) + 3 * ValU(Tail(x))
(* increment of a base-3 number, least significant trit first: result and "no overflow" *)
RECURSIVE IncU(_)
IncU(x) == IF x = <<>> THEN <<>> ELSE IF Head(x) = 2 THEN <<0>> \o IncU(Tail(x)) ELSE <<Head(x) + 1>> \o Tail(x)
NoOverflow(x) == \E i \in 1..Len(x) : x[i] # 2

Add3(x, y) == [i \in 1..Len(x) |-> (x[i] + y[i]) % 3]
Sub3(x, y) == [i \in 1..Len(x) |-> (x[i] + 3 - y[i]) % 3]
Cycle(x, n) == [i \in 1..n |-> x[((i - 1) % Len(x)) + 1]]
RECURSIVE Chunks(_, _)
Chunks(x, k) == IF x = <<>> THEN <<>> ELSE IF Len(x) <= k THEN <<x>>
                ELSE <<SubSeq(x, 1, k)>> \o Chunks(SubSeq(x, k + 1, Len(x)), k)
RndSeq(n) == [i \in 1..n |-> Pick(0..2)]
(* mostly-full strings, so that increments carry far *)
RndTwos(n) == [i \in 1..n |-> IF Pick(1..5) = 1 THEN Pick(0..2) ELSE 2]

Step(op, i, j, l, k, r, sl2, buf2) ==
  /\ sl' = sl2 /\ buf' = buf2
  /\ hist' = Append(hist, [op |-> op, i |-> i, j |-> j, l |-> l, k |-> k, r |-> r, sl |-> sl2,
                           buf |-> IF buf2 = buf THEN <<>> ELSE buf2])
Same(op, i, j, l, k, r) == Step(op, i, j, l, k, r, sl, buf)
NewSl(op, i, j, k, s) == Step(op, i, j, 0, k, <<>>, [sl EXCEPT ![j] = s], buf)
Put(op, i, k, x) == Step(op, i, 0, 0, k, <<>>, sl, Write(buf, sl[i], x))

Ranges(i, j, k, m) ==  \* k \in 0..size, m arbitrary
  LET s == sl[i] IN
  \E o \in {Pick(1..14)} :
  CASE o = 1 -> NewSl("take", i, j, k, TakeS(s, k))
    [] o = 2 -> NewSl("drop", i, j, k, DropS(s, k))
    [] o = 3 -> NewSl("take_min", i, j, m, TakeS(s, Min2(m, Size(s))))
    [] o = 4 -> NewSl("drop_min", i, j, m, DropS(s, Min2(m, Size(s))))
    [] o = 5 -> Step("split_at", i, j, 0, k, <<>>, [sl EXCEPT ![i] = TakeS(s, k), ![j] = DropS(s, k)], buf)
    [] o = 6 -> Step("split_at_min", i, j, 0, m, <<>>, [sl EXCEPT ![i] = TakeS(s, Min2(m, Size(s))), ![j] = DropS(s, Min2(m, Size(s)))], buf)
    [] o = 7 -> LET q == IF s.d = 0 THEN 0 ELSE m % (s.d + 1) IN NewSl("pickup", i, j, q, [s EXCEPT !.d = s.d - q])
    [] o = 8 -> NewSl("pickup_all", i, j, 0, [s EXCEPT !.d = 0])
    [] o = 9 -> NewSl("drop_all", i, j, 0, [s EXCEPT !.d = s.n])
    [] o = 10 -> NewSl("dropped", i, j, 0, [s EXCEPT !.n = s.d, !.d = 0])
    [] o = 11 -> Step("advance", i, j, 0, k, <<>>, [sl EXCEPT ![i] = DropS(s, k), ![j] = TakeS(s, k)], buf)
    [] o = 12 -> IF sl[j].b = s.b /\ sl[j].d <= s.d /\ s.d <= sl[j].n
                 THEN NewSl("diff", i, j, 0, [b |-> s.b, d |-> sl[j].d, n |-> s.d])
                 ELSE NewSl("pickup_all", i, j, 0, [s EXCEPT !.d = 0])
    [] OTHER -> \E b \in {Pick(1..NBUF)} : NewSl("whole", b, j, 0, [b |-> b, d |-> 0, n |-> Len(buf[b])])

Observe(i, j, k, m) ==
  LET s == sl[i]
      t == sl[j]
      q == Min2(Size(s), Size(t)) IN
  \E o \in {Pick(1..10)} :
  CASE o = 1 -> Same("eq_min", i, j, 0, 0, <<IF Cont(TakeS(s, q)) = Cont(TakeS(t, q)) THEN 1 ELSE 0, q>>)
    [] o = 2 -> Same("eq", i, j, 0, q, <<IF Cont(TakeS(s, q)) = Cont(TakeS(t, q)) THEN 1 ELSE 0>>)
    [] o = 3 -> Same("cmp", i, j, 0, 0, <<IF Cont(s) = Cont(t) THEN 1 ELSE 0>>)
    [] o = 4 -> Same("is_same", i, j, 0, 0, <<IF SamePlace(s, t) THEN 1 ELSE 0>>)
    [] o = 5 -> IF Size(s) > 0 /\ Size(t) > 0 THEN Same("is_overlapped", i, j, 0, 0, <<IF Disjoint(s, t) THEN 0 ELSE 1>>)
                ELSE Same("size_min", i, 0, 0, m, <<Min2(m, Size(s))>>)
    [] o = 6 -> Same("chunks", i, 0, 0, m + 1, Chunks(Cont(s), m + 1))
    [] o = 7 -> Same("gets", i, 0, 0, 0, <<IF Size(s) >= 1 THEN ValB(Cont(TakeS(s, 1))) ELSE 0,
                    IF Size(s) >= 3 THEN ValB(Cont(TakeS(s, 3))) ELSE 0, IF Size(s) >= 6 THEN ValB(Cont(TakeS(s, 6))) ELSE 0,
                    IF Size(s) >= 9 THEN ValB(Cont(TakeS(s, 9))) ELSE 0, IF Size(s) >= 18 THEN ValB(Cont(TakeS(s, 18))) ELSE 0,
                    IF Size(s) >= 3 THEN ValU(Cont(TakeS(s, 3))) ELSE 0>>)
    [] o = 8 -> Same("size_min", i, 0, 0, m, <<Min2(m, Size(s))>>)
    [] OTHER -> Same("clone", i, 0, 0, 0, Cont(s))

Mutate1(i, k, m) ==
  LET s == sl[i] IN
  \E o \in {Pick(1..10)}, v \in {RndSeq(18)}, w \in {Pick(0..2)} :
  CASE o = 1 -> Put("set_trit", i, w, [x \in 1..Size(s) |-> w])
    [] o = 2 -> Put("set_zero", i, 0, [x \in 1..Size(s) |-> 0])
    [] o \in {3, 4} -> Step("inc", i, 0, 0, 0, <<IF NoOverflow(Cont(s)) THEN 1 ELSE 0>>, sl, Write(buf, s, IncU(Cont(s))))
    [] o = 5 /\ Size(s) >= 18 -> Put("put18", i, ValB(v), DigitsB(ValB(v), 18))
    [] o = 6 /\ Size(s) >= 9 -> Put("put9", i, ValB(SubSeq(v, 1, 9)), SubSeq(v, 1, 9))
    [] o = 7 /\ Size(s) >= 6 -> Put("put6", i, ValB(SubSeq(v, 1, 6)), SubSeq(v, 1, 6))
    [] o = 8 /\ Size(s) >= 3 -> Put("put3", i, ValB(SubSeq(v, 1, 3)), SubSeq(v, 1, 3))
    [] o = 9 /\ Size(s) >= 3 -> Put("put_tryte", i, ValU(SubSeq(v, 1, 3)), SubSeq(v, 1, 3))
    [] OTHER -> IF Size(s) = 0 THEN Put("set_zero", i, 0, <<>>)
                ELSE IF w = 0 THEN Put("put1", i, Bal(v[1]), <<v[1]>>)
                ELSE IF w = 1 THEN Put("put_trit", i, v[1], <<v[1]>>)
                ELSE \E y \in {RndTwos(k)} : Step("put_trits", i, 0, 0, 0, y, sl, Write(buf, s, y))

Mutate2(i, j, k) ==
  LET s == sl[i]
      t == sl[j]
      q == Min2(Size(s), Size(t))
      a == TakeS(s, q)
      b == TakeS(t, q) IN
  \E o \in {Pick(1..8)} :
  CASE o = 8 /\ q > 0 -> \E p \in {Pick({1, q, 1 + Pick(0..(q - 1))})}, v \in {Pick(0..2)} :   \* a copy but for one trit: equal only as far as that goes
                        LET buf2 == [Write(buf, b, Cont(a)) EXCEPT ![b.b][b.d + p] = v]
                            c(r) == SubSeq(buf2[r.b], r.d + 1, r.n)
                        IN Step("copy_but", i, j, p, q, <<v, IF c(a) = c(b) THEN 1 ELSE 0>>, sl, buf2)
    [] o = 1 -> Step("copy", i, j, 0, q, <<>>, sl, Write(buf, b, Cont(a)))          \* overlapping allowed
    [] o = 2 -> Step("copy_min", i, j, 0, 0, <<q>>, sl, Write(buf, b, Cont(a)))
    [] o = 3 /\ Disjoint(s, t) /\ Size(t) > 0 -> Step("cycle", i, j, 0, 0, <<>>, sl, Write(buf, s, Cycle(Cont(t), Size(s))))
    [] o = 3 /\ Size(t) = 0 -> Step("cycle", i, j, 0, 0, <<>>, sl, buf)
    [] o \in {4, 5} /\ Disjoint(a, b) ->
         Step(IF o = 4 THEN "swap_add" ELSE "swap_add_min", i, j, 0, q, <<q>>, sl,
              Write(Write(buf, b, Cont(a)), a, Add3(Cont(a), Cont(b))))
    [] o \in {6, 7} /\ Disjoint(a, b) ->
         Step(IF o = 6 THEN "swap_sub" ELSE "swap_sub_min", i, j, 0, q, <<q>>, sl,
              Write(Write(buf, b, Sub3(Cont(a), Cont(b))), a, Sub3(Cont(a), Cont(b))))
    [] OTHER -> Step("copy", i, j, 0, q, <<>>, sl, Write(buf, b, Cont(a)))

(* i: source, j: sponge cells, l: destination *)
Mutate3(i, j, l) ==
  LET q == Min2(Min2(Size(sl[i]), Size(sl[j])), Size(sl[l]))
      x == TakeS(sl[i], q)
      s == TakeS(sl[j], q)
      y == TakeS(sl[l], q)
      ok == Disjoint(x, s) /\ Disjoint(s, y) /\ (SamePlace(x, y) \/ Disjoint(x, y)) IN
  \E o \in {Pick(1..2)} :
  IF ~ok THEN Mutate2(i, j, 0)
  ELSE IF o = 1 THEN Step("copy_add", i, j, l, q, <<q>>, sl, Write(Write(buf, s, Cont(x)), y, Add3(Cont(x), Cont(s))))
  ELSE Step("copy_sub", i, j, l, q, <<q>>, sl, Write(Write(buf, s, Sub3(Cont(x), Cont(s))), y, Sub3(Cont(x), Cont(s))))

(* three-slice forms with a shorter sponge part *)
Mutate3Min(i, j, l) ==
  LET q0 == Min2(Size(sl[i]), Size(sl[l]))
      q == Min2(q0, Size(sl[j]))
      x == TakeS(sl[i], q)
      s == TakeS(sl[j], q)
      y == TakeS(sl[l], q)
      ok == Disjoint(x, s) /\ Disjoint(s, y) /\ (SamePlace(x, y) \/ Disjoint(x, y)) IN
  \E o \in {Pick(1..2)} :
  IF ~ok THEN Mutate2(i, j, 0)
  ELSE IF o = 1 THEN Step("copy_add_min", i, j, l, q0, <<q>>, sl, Write(Write(buf, s, Cont(x)), y, Add3(Cont(x), Cont(s))))
  ELSE Step("copy_sub_min", i, j, l, q0, <<q>>, sl, Write(Write(buf, s, Sub3(Cont(x), Cont(s))), y, Sub3(Cont(x), Cont(s))))

RandomOp ==
  \E c \in {Pick(1..20)}, i \in {Pick(1..NSL)}, j \in {Pick(1..NSL)}, l \in {Pick(1..NSL)}, m \in {Pick(0..25)} :
  \E k \in {Pick(0..Size(sl[i]))} :
    CASE c <= 6 -> Ranges(i, j, k, m)
      [] c \in 7..10 -> Observe(i, j, k, m)
      [] c \in 11..13 -> Mutate1(i, k, m)
      [] c \in 14..17 -> Mutate2(i, j, k)
      [] c \in 18..19 -> Mutate3(i, j, l)
      [] OTHER -> Mutate3Min(i, j, l)

Lens == IF BIG THEN {0, 18, 100, 243, 300} ELSE {0, 1, 2, 3, 5, 9, 12, 18, 27, 40}
Init == buf = [b \in 1..NBUF |-> <<0>>] /\ sl = [i \in 1..NSL |-> [b |-> 1, d |-> 0, n |-> 1]] /\ hist = <<>> /\ fin = FALSE
RndBuf == [b \in 1..NBUF |-> LET ns == {Pick(Lens \ {0})} IN
            CHOOSE x \in {IF Pick(1..2) = 1 THEN RndSeq(n) ELSE RndTwos(n) : n \in ns} : TRUE]
Setup == \E b0 \in {RndBuf}, c \in {[i \in 1..NSL |-> Pick(1..NBUF)]} :
         LET s0 == [i \in 1..NSL |-> [b |-> c[i], d |-> 0, n |-> Len(b0[c[i]])]]
         IN Step("init", 0, 0, 0, 0, <<>>, s0, b0)
Next == \/ /\ ~fin /\ Len(hist) < DEPTH /\ UNCHANGED fin /\ (IF hist = <<>> THEN Setup ELSE RandomOp)
        \/ /\ ~fin /\ Len(hist) = DEPTH /\ fin' = TRUE /\ UNCHANGED <<buf, sl, hist>>
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A b \in 1..NBUF : \A i \in 1..Len(buf[b]) : buf[b][i] \in 0..2
          /\ \A i \in 1..NSL : sl[i].d >= 0 /\ sl[i].d <= sl[i].n /\ sl[i].n <= Len(buf[sl[i].b])
Emit == fin => PrintT("@@" \o ToJson([t |-> "slice", hist |-> hist]))
============================================================================
