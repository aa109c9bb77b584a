------------------------------- MODULE RingMC -------------------------------
(* Exhaustive for small N and Q: the transform computes its definition, the   *)
(* inverse transform undoes it, products go through, inverses exist exactly   *)
(* if no transformed coefficient is zero; small key encapsulation decrypts.   *)
EXTENDS Ring
CONSTANTS MODE
VARIABLES a, b, c, d
vars == <<a, b, c, d>>
Z == [i \in D |-> 0]
Small == [D -> -1..1]
Basis == {Unit(i, x) : i \in D, x \in {1, Q - 1, 3 % Q}}
Init == CASE MODE = "one" -> a \in [D -> Zq] /\ b = Z /\ c = Z /\ d = Z
          [] MODE = "two" -> a \in [D -> Zq] /\ b \in [D -> Zq] /\ c = Z /\ d = Z
          [] MODE = "basis" -> a \in [D -> Zq] /\ b \in Basis /\ c = Z /\ d = Z
          [] MODE = "units" -> a \in Basis /\ b \in {Unit(i, x) : i \in D, x \in 1..(Q - 1)} /\ c = Z /\ d = Z
          [] MODE = "root" -> a = 0 /\ b = 0 /\ c = 0 /\ d = 0
          [] MODE = "kem" -> a \in Small /\ b \in Small /\ c \in Small /\ d \in Small   \* f, g, r, m
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
RootOk == Pow(G, N) = Q - 1
Definition == MODE = "one" => Ntt(a) = NttDef(a)
Undo == MODE = "one" => Intt(Ntt(a)) = a /\ Ntt(Intt(a)) = a
InvertsExactly == MODE = "one" => LET t == Ntt(a) IN IF HasInv(t) THEN Mul(a, Intt(InvT(t))) = One ELSE \A e \in {Unit(i, 1) : i \in D} : Mul(a, e) # One
Product == MODE \in {"two", "basis", "units"} => Intt(Conv(Ntt(a), Ntt(b))) = Mul(a, b)
NoDivisorInverse == MODE = "two" => (Mul(a, b) = One => HasInv(Ntt(a)) /\ Intt(InvT(Ntt(a))) = b)
Linear == MODE = "two" => Ntt(Add(a, b)) = Add(Ntt(a), Ntt(b)) /\ Ntt(Sub(a, b)) = Sub(Ntt(a), Ntt(b))
Decrypts == MODE = "kem" /\ HasInv(Ntt(F3(a))) /\ NoWrap(a, b, c, d) => Opened(a, Capsule(Pub(a, b), c, d)) = d
=============================================================================
