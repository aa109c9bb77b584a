------------------------------ MODULE RingScan ------------------------------
(* Pointwise operations on every coefficient value: register a runs through    *)
(* all residues, 1024 at a time; b is constant or varies with a.  And for each *)
(* of the 1024 zeros of x^1024 + 1, the polynomial having just that zero.      *)
EXTENDS RingGen
CONSTANTS STEP
VARIABLES s
V0(c, i) == (1024 * c + i) % Q
V(c, i) == IF s.op = "inv" /\ V0(c, i) = 0 THEN 1 ELSE V0(c, i)      \* inversion is not defined on zero
Ops == {"add", "sub", "conv"}
Bs == {1, Q - 1, 2, 6144, 6145, 4091, 12288 \div 4} \cup {-1, -2, -3}     \* -1: b = a, -2: b = -a, -3: b = 5 a + 1000
B(v, k) == IF k >= 0 THEN k ELSE IF k = -1 THEN v ELSE IF k = -2 THEN Mod(0 - v) ELSE Mod(5 * v + 1000)
ScanS == [t : {"scan"}, c : 0..12, op : Ops, k : Bs] \cup [t : {"scan"}, c : 0..12, op : {"inv", "mul3", "round", "add1", "small"}, k : {0}]
RootS == [t : {"roots"}, c : {j \in D : j % STEP = 0 \/ j = N - 1}, op : {"x"}, k : {1}] \cup [t : {"roots"}, c : {0, 1, 511, 512, 1023}, op : {"x"}, k : {0, 2, 3, 512, 1023}]
InitS == s \in ScanS \cup RootS /\ regs = 0 /\ hist = <<>> /\ fin = FALSE
NextS == FALSE /\ UNCHANGED <<vars, s>>
SpecS == InitS /\ [][NextS]_<<vars, s>>
R2(op, a, b) == CASE op = "add" -> Mod(a + b) [] op = "sub" -> Mod(a - b) [] op = "conv" -> Mod(a * b)
R1(op, a) == CASE op = "inv" -> (IF a = 0 THEN 0 ELSE Pow(a, Q - 2)) [] op = "mul3" -> Mod(3 * a) [] op = "round" -> Mod(Mod3(a)) [] op = "add1" -> Mod(a + 1) [] op = "small" -> Mod(a + Mod3(V(7, a)))
Seqn(F(_)) == [i \in 1..N |-> F(i - 1)]
Scan == [t |-> "scan", op |-> s.op, a |-> Seqn(LAMBDA i : Cen(V(s.c, i))), b |-> Seqn(LAMBDA i : IF s.op = "small" THEN Mod3(V(7, V(s.c, i))) ELSE Cen(B(V(s.c, i), s.k))),
         r |-> Seqn(LAMBDA i : Cen(IF s.op \in Ops THEN R2(s.op, V(s.c, i), B(V(s.c, i), s.k)) ELSE R1(s.op, V(s.c, i))))]
(* k = 0: the constant 7, invertible; else x^k - w^k for w the c-th zero *)
Roots == LET v == TLCEval(Norm(IF s.k = 0 THEN (0 :> 7) ELSE RootPoly(s.k, s.c))) IN
  [t |-> "ring", dense |-> FALSE, hist |-> << Rec("load", 1, 0, {<<k, Cen(v[k])>> : k \in DOMAIN v}, [form |-> "plain", v |-> v]), Rec("ntt", 1, 0, {}, [form |-> "ntt", v |-> v]), Rec("invcheck", 1, 0, {}, [form |-> "ntt", v |-> v]) >>]
EmitS == PrintT("@@" \o ToJson(IF s.t = "scan" THEN Scan ELSE Roots))
=============================================================================
