-------------------------------- MODULE Ring --------------------------------
(* Polynomials modulo x^N + 1 over the integers modulo Q, N a power of two.   *)
(* Dense: a function 0..N-1 -> 0..Q-1.  G is a primitive 2N-th root of unity. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS NLOG, Q, G
N == 2 ^ NLOG
D == 0..(N - 1)
Zq == 0..(Q - 1)
Mod(x) == ((x % Q) + Q) % Q
Cen(x) == LET r == Mod(x) IN IF r > Q \div 2 THEN r - Q ELSE r
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 0 THEN LET b == Pow(a, n \div 2) IN Mod(b * b) ELSE Mod(a * Pow(a, n - 1))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n < 0 THEN 0 ELSE Mod(f[n] + SumTo(f, n - 1))
Sum(f) == SumTo(f, N - 1)
Add(a, b) == [i \in D |-> Mod(a[i] + b[i])]
Sub(a, b) == [i \in D |-> Mod(a[i] - b[i])]
Mul(a, b) == [k \in D |-> Sum([i \in D |-> IF i <= k THEN a[i] * b[k - i] ELSE 0 - a[i] * b[N + k - i]])]
Eval(a, x) == Sum([i \in D |-> Mod(a[i] * Pow(x, i))])
(* the transform by definition, and pointwise operations *)
NttDef(a) == [j \in D |-> Eval(a, Pow(G, 2 * j + 1))]
Conv(a, b) == [i \in D |-> Mod(a[i] * b[i])]
HasInv(t) == \A i \in D : t[i] # 0
InvT(t) == [i \in D |-> Pow(t[i], Q - 2)]
(* the transform as computed: twist, bit reversal, NLOG layers of butterflies *)
RECURSIVE RevB(_, _)
RevB(i, n) == IF n = 0 THEN 0 ELSE (i % 2) * 2 ^ (n - 1) + RevB(i \div 2, n - 1)
Rev(i) == RevB(i, NLOG)
GInv == Pow(G, Q - 2)
NInv == Pow(N, Q - 2)
Layer(u, l, g) == [j \in D |-> LET h == j % (N \div 2) r == (h \div 2 ^ l) * 2 ^ l
                                   c == u[2 * h] d == Mod(u[2 * h + 1] * Pow(g, 2 * r))
                               IN IF j < N \div 2 THEN Mod(c + d) ELSE Mod(c - d)]
Layers(u, g) == FoldLeft(LAMBDA v, l : Layer(v, NLOG - l, g), u, [x \in 1..NLOG |-> x])
Ntt(a) == Layers([i \in D |-> LET k == Rev(i) IN Mod(a[k] * Pow(G, k))], G)
Intt(t) == LET u == Layers([i \in D |-> t[Rev(i)]], GInv) IN [k \in D |-> Mod(NInv * Mod(Pow(GInv, k) * u[k]))]
One == [i \in D |-> IF i = 0 THEN 1 ELSE 0]
Unit(i, c) == [k \in D |-> IF k = i THEN c ELSE 0]
(* ---- small polynomials: coefficients -1, 0, 1; nearest multiple of three ---- *)
Mod3(x) == LET r == Cen(x) % 3 IN IF r = 2 THEN -1 ELSE r
(* ---- key encapsulation over the ring: h = 3g/(1+3f); y = r*h + m, m small; m = y(1+3f) mod 3 if no coefficient wraps ---- *)
Lift(a) == [i \in D |-> Cen(a[i])]
F3(f) == [i \in D |-> Mod((IF i = 0 THEN 1 ELSE 0) + 3 * f[i])]
Pub(f, g) == Intt(Conv(Ntt([i \in D |-> Mod(3 * g[i])]), InvT(Ntt(F3(f)))))
Capsule(h, r, m) == Add(Mul(r, h), [i \in D |-> Mod(m[i])])
Opened(f, y) == LET z == Mul(y, F3(f)) IN [i \in D |-> Mod3(z[i])]
(* no coefficient of y(1+3f) = 3rg + m(1+3f) leaves the balanced range when read over the integers *)
MulZ(a, b) == [k \in D |-> LET s == [i \in D |-> IF i <= k THEN a[i] * b[k - i] ELSE 0 - a[i] * b[N + k - i]] IN FoldLeft(LAMBDA x, i : x + s[i - 1], 0, [i \in 1..N |-> i])]
NoWrap(f, g, r, m) == \A k \in D : LET v == 3 * MulZ(r, g)[k] + m[k] + 3 * MulZ(m, f)[k] IN v >= -(Q \div 2) /\ v <= Q \div 2
=============================================================================
