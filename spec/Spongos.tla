------------------------------ MODULE Spongos ------------------------------
(* The Spongos duplex construction: an overwrite-mode sponge with an outer  *)
(* part of RATE trits, an inner part of CAP trits and a free permutation.   *)
(*                                                                          *)
(* Data is symbolic.  A trit string is a sequence of segments; a segment    *)
(* [lc, len] stands for len trits, each the GF(3)-linear combination of     *)
(* trits of symbols: lc is a set of <<kind, id, offset, coef>>, coef 1 or 2 *)
(* and trit i of the segment is  SUM coef * symbol(kind,id)[offset+i] mod 3.*)
(* Symbols are inputs ("in", k) and permutation outputs ("p", node).        *)
(*                                                                          *)
(* A permutation application is a node of a hash-consed heap: node 0 is the *)
(* all-zero state; a "perm" node is the state reached by overwriting the    *)
(* first LenOf(inj) trits of the state of node prev and permuting; a "rest" *)
(* node is a state restored from the inner part of node prev (outer zero).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS RATE, CAP

Min2(a, b) == IF a < b THEN a ELSE b

------------------------------------------------------- (* trit strings *)
Zero(n) == IF n = 0 THEN <<>> ELSE <<[lc |-> {}, len |-> n]>>
Sym(kind, id, off, n) == IF n = 0 THEN <<>> ELSE <<[lc |-> {<<kind, id, off, 1>>}, len |-> n]>>

RECURSIVE LenOf(_)
LenOf(x) == IF x = <<>> THEN 0 ELSE Head(x).len + LenOf(Tail(x))

ShiftLC(lc, k) == {<<t[1], t[2], t[3] + k, t[4]>> : t \in lc}

RECURSIVE TakeT(_, _)
TakeT(x, n) == IF n = 0 THEN <<>>
               ELSE IF Head(x).len <= n THEN <<Head(x)>> \o TakeT(Tail(x), n - Head(x).len)
               ELSE <<[Head(x) EXCEPT !.len = n]>>
RECURSIVE DropT(_, _)
DropT(x, n) == IF n = 0 THEN x
               ELSE IF Head(x).len <= n THEN DropT(Tail(x), n - Head(x).len)
               ELSE <<[lc |-> ShiftLC(Head(x).lc, n), len |-> Head(x).len - n]>> \o Tail(x)

Coef(lc, k) == IF \E t \in lc : t[1] = k[1] /\ t[2] = k[2] /\ t[3] = k[3]
               THEN (CHOOSE t \in lc : t[1] = k[1] /\ t[2] = k[2] /\ t[3] = k[3])[4] ELSE 0
(* a + c*b for linear combinations *)
AddLC(a, b, c) == LET ks == {<<t[1], t[2], t[3]>> : t \in a \cup b}
                      r(k) == (Coef(a, k) + c * Coef(b, k)) % 3
                  IN {<<k[1], k[2], k[3], r(k)>> : k \in {j \in ks : r(j) # 0}}
RECURSIVE AddT(_, _, _)
AddT(x, y, c) == IF x = <<>> THEN <<>>
                 ELSE LET n == Min2(Head(x).len, Head(y).len)
                      IN <<[lc |-> AddLC(Head(x).lc, Head(y).lc, c), len |-> n]>>
                         \o AddT(DropT(x, n), DropT(y, n), c)
(* unique representation: adjacent segments that continue each other are merged *)
RECURSIVE Norm(_)
Norm(x) == IF Len(x) < 2 THEN x
           ELSE IF x[2].lc = ShiftLC(x[1].lc, x[1].len)
                THEN Norm(<<[lc |-> x[1].lc, len |-> x[1].len + x[2].len]>> \o Tail(Tail(x)))
                ELSE <<x[1]>> \o Norm(Tail(x))

------------------------------------------------------- (* the duplex *)
OuterOf(h, node) == IF node = 0 \/ (node > 0 /\ h[node].k = "rest") THEN Zero(RATE)
                    ELSE Sym("p", node, 0, RATE)
InitSp == [node |-> 0, pos |-> 0, out |-> Zero(RATE)]

(* hash-consing: the id of an entry, and the heap containing it *)
Intern(h, e) == IF \E i \in 1..Len(h) : h[i] = e
                THEN <<CHOOSE i \in 1..Len(h) : h[i] = e, h>>
                ELSE <<Len(h) + 1, Append(h, e)>>

(* Only the first pos trits of the outer part are overwritten.  When the whole outer *)
(* part is overwritten only the inner part of the previous state matters.            *)
Commit(s, h) ==
  IF s.pos = 0 THEN [s |-> s, h |-> h]
  ELSE LET inj == Norm(TakeT(s.out, s.pos))
           prev == IF s.pos = RATE /\ s.node > 0 /\ h[s.node].k = "rest" THEN h[s.node].prev ELSE s.node
           r == Intern(h, [k |-> "perm", prev |-> prev, inj |-> inj])
       IN [s |-> [node |-> r[1], pos |-> 0, out |-> OuterOf(r[2], r[1])], h |-> r[2]]

(* one piece of n <= RATE - pos trits: output and the trits left in the outer part *)
Piece(kind, x, cells) ==
  CASE kind = "absorb"  -> [y |-> <<>>, c |-> x]
    [] kind = "squeeze" -> [y |-> cells, c |-> Zero(LenOf(x))]
    [] kind = "encr"    -> [y |-> AddT(x, cells, 1), c |-> x]
    [] kind = "decr"    -> LET p == AddT(x, cells, 2) IN [y |-> p, c |-> p]

RECURSIVE Run(_, _, _, _, _)
Run(kind, s, h, x, y) ==
  IF x = <<>> THEN [s |-> s, h |-> h, y |-> Norm(y)]
  ELSE LET n == Min2(LenOf(x), RATE - s.pos)
           p == Piece(kind, TakeT(x, n), TakeT(DropT(s.out, s.pos), n))
           out2 == Norm(TakeT(s.out, s.pos) \o p.c \o DropT(s.out, s.pos + n))
           s2 == [node |-> s.node, pos |-> s.pos + n, out |-> out2]
           r == IF s2.pos = RATE THEN Commit(s2, h) ELSE [s |-> s2, h |-> h]
       IN Run(kind, r.s, r.h, DropT(x, n), y \o p.y)

Do(kind, s, h, x) == Run(kind, s, h, x, <<>>)

(* joiner absorbs CAP trits squeezed from the joinee *)
Join(s, t, h) == LET q == Do("squeeze", t, h, Zero(CAP))
                     a == Do("absorb", s, q.h, q.y)
                 IN [s |-> a.s, t |-> q.s, h |-> a.h]

(* save: only without pending input; restore: outer zero *)
CanSave(s) == s.pos = 0
InnerRef(s, h) == IF s.node > 0 /\ h[s.node].k = "rest" THEN h[s.node].prev ELSE s.node
Restore(s, h) == LET n == InnerRef(s, h)
                     r == IF n = 0 THEN <<0, h>> ELSE Intern(h, [k |-> "rest", prev |-> n, inj |-> <<>>])
                 IN [s |-> [node |-> r[1], pos |-> 0, out |-> Zero(RATE)], h |-> r[2]]

WellFormed(s, h) == /\ s.node \in 0..Len(h)
                    /\ s.pos \in 0..(RATE - 1)
                    /\ LenOf(s.out) = RATE
                    /\ s.out = Norm(s.out)
============================================================================
