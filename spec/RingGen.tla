------------------------------- MODULE RingGen ------------------------------
(* Programs over polynomial registers at the real size.  Values are sparse    *)
(* and exact (a function from degrees to non-zero coefficients) unless DENSE; *)
(* then loads name pseudo-random dense polynomials and only the operations    *)
(* are given.  form: plain or transformed.                                    *)
EXTENDS Ring, Json
CONSTANTS DEPTH, DENSE
VARIABLES regs, hist, fin
vars == <<regs, hist, fin>>
Pick(S) == RandomElement(S)
E0 == <<>>
Norm(g) == LET f == TLCEval(g) S == {i \in DOMAIN f : Mod(f[i]) # 0} IN TLCEval([i \in S |-> Mod(f[i])])
At(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
SAdd(f, g) == Norm([i \in DOMAIN f \cup DOMAIN g |-> At(f, i) + At(g, i)])
SSub(f, g) == Norm([i \in DOMAIN f \cup DOMAIN g |-> At(f, i) - At(g, i)])
SMap(f, Op(_)) == Norm([i \in DOMAIN f |-> Op(f[i])])
SMul(f, g) == LET ps == SetToSeq((DOMAIN f) \X (DOMAIN g)) IN
  Norm(FoldLeft(LAMBDA acc, p : LET k == (p[1] + p[2]) % N v == IF p[1] + p[2] < N THEN f[p[1]] * g[p[2]] ELSE 0 - f[p[1]] * g[p[2]]
                               IN [i \in DOMAIN acc \cup {k} |-> IF i = k THEN Mod(At(acc, k) + v) ELSE acc[i]], E0, ps))
Degs == {0, 1, 2, 3, 511, 512, 513, 1021, 1022, 1023} \cup 0..1023
EdgeDegs == {0, 1, 512, 1022, 1023}
Coefs == {1, -1, 2, 3, -3, 4, 6143, 6144, -6143, -6144, 4091, -4091, 6, 64, 2304}
RndSparse(small) == TLCEval([i \in {Pick(IF Pick(1..2) = 1 THEN EdgeDegs ELSE Degs) : x \in 1..Pick(1..6)} |-> IF small THEN Pick({-1, 1}) ELSE IF Pick(1..3) = 1 THEN Pick(-6144..6144) ELSE Pick(Coefs)])
(* a polynomial with the root G^(2j+1): x^i - G^((2j+1) i) *)
RootPoly(i, j) == LET r == Pow(G, ((2 * j + 1) * i) % (2 * N)) IN [k \in {0, i} |-> IF k = i THEN 1 ELSE 0 - r]
ShowV(v) == IF DENSE THEN {} ELSE {<<i, Cen(v[i])>> : i \in DOMAIN v}
Rec(op, x, y, arg, r) == [op |-> op, x |-> x, y |-> y, arg |-> arg, form |-> r.form, v |-> ShowV(r.v)]
Put(op, x, y, arg, r) == /\ regs' = [regs EXCEPT ![x] = r] /\ hist' = Append(hist, Rec(op, x, y, arg, r))
NR == 3
Size(v) == Cardinality(DOMAIN v)
Load == \E x \in {IF Len(hist) < NR THEN Len(hist) + 1 ELSE Pick(1..NR)}, c \in {Pick(1..6)}, i \in {Pick(1..1023)}, j \in {Pick(0..1023)} :
   IF DENSE /\ c > 2 THEN Put(IF c <= 4 THEN "load" ELSE "loadsmall", x, 0, {}, [form |-> "plain", v |-> E0])
   ELSE IF c = 1 THEN \E v \in {TLCEval(Norm(RootPoly(i, j)))} : Put("load", x, 0, {<<k, Cen(v[k])>> : k \in DOMAIN v}, [form |-> "plain", v |-> v])
   ELSE \E v \in {TLCEval(Norm(RndSparse(c > 4)))} : Put(IF c > 4 THEN "loadsmall" ELSE "load", x, 0, {<<k, Cen(v[k])>> : k \in DOMAIN v}, [form |-> "plain", v |-> v])
BadLoad == \E x \in {Pick(1..NR)}, i \in {Pick(Degs)}, c \in {Pick({6145, -6145, 6146, -6146, 9841, -9841, 8000, -7000})} :
   regs' = regs /\ hist' = Append(hist, Rec("badload", x, 0, {<<i, c>>}, regs[x]))
(* x := x * y through the transform, from either form *)
MulOp == \E x \in {Pick(1..NR)}, y \in {Pick(1..NR)} :
   /\ Size(regs[x].v) * Size(regs[y].v) <= 150
   /\ Put("mul", x, y, {}, [form |-> "plain", v |-> SMul(regs[x].v, regs[y].v)])
Bin == \E x \in {Pick(1..NR)}, y \in {Pick(1..NR)}, c \in {Pick(1..4)} : LET p == regs[x] q == regs[y] IN
   /\ p.form = q.form
   /\ CASE c = 1 -> Put("add", x, y, {}, [p EXCEPT !.v = SAdd(p.v, q.v)])
        [] c = 2 -> Put("sub", x, y, {}, [p EXCEPT !.v = SSub(p.v, q.v)])
        [] OTHER -> IF p.form = "ntt" /\ Size(p.v) * Size(q.v) <= 150 THEN Put("conv", x, y, {}, [p EXCEPT !.v = SMul(p.v, q.v)])
                    ELSE Put("copy", x, y, {}, q)
Un == \E x \in {Pick(1..NR)}, c \in {Pick(1..12)} : LET p == regs[x] IN
   IF p.form = "plain"
   THEN CASE c <= 5 -> Put("ntt", x, 0, {}, [p EXCEPT !.form = "ntt"])
          [] c = 6 -> Put("mul3", x, 0, {}, [p EXCEPT !.v = SMap(p.v, LAMBDA t : 3 * t)])
          [] c = 7 -> Put("add1", x, 0, {}, [p EXCEPT !.v = SAdd(p.v, [i \in {0} |-> 1])])
          [] c = 8 -> Put("round", x, 0, {}, [p EXCEPT !.v = SMap(p.v, LAMBDA t : Mod3(t))])
          [] c \in {9, 10} -> \E s \in {TLCEval(Norm(RndSparse(TRUE)))} : Put("addsmall", x, 0, {<<k, Cen(s[k])>> : k \in DOMAIN s}, [p EXCEPT !.v = SAdd(p.v, s)])
          [] OTHER -> \E s \in {TLCEval(Norm(RndSparse(TRUE)))} : Put("subsmall", x, 0, {<<k, Cen(s[k])>> : k \in DOMAIN s}, [p EXCEPT !.v = SSub(p.v, s)])
   ELSE CASE c <= 6 -> Put("intt", x, 0, {}, [p EXCEPT !.form = "plain"])
          [] OTHER -> Put("invcheck", x, 0, {}, p)
Init == regs = [x \in 1..NR |-> [form |-> "plain", v |-> E0]] /\ hist = <<>> /\ fin = FALSE
Next == \/ /\ ~fin /\ Len(hist) < DEPTH /\ UNCHANGED fin
           /\ \E c \in {Pick(1..20)} : IF c <= 4 \/ Len(hist) < NR THEN Load ELSE IF c = 5 THEN BadLoad ELSE IF c <= 12 THEN Un ELSE IF c <= 15 THEN MulOp \/ Load ELSE (Bin \/ Un)
        \/ ~fin /\ Len(hist) = DEPTH /\ fin' = TRUE /\ UNCHANGED <<regs, hist>>
Spec == Init /\ [][Next]_vars
Canonical == ~DENSE => \A x \in 1..NR : \A i \in DOMAIN regs[x].v : regs[x].v[i] \in 1..(Q - 1) /\ i \in D
Emit == fin => PrintT("@@" \o ToJson([t |-> "ring", dense |-> DENSE, hist |-> hist]))
=============================================================================
