------------------------------ MODULE RingUnits -----------------------------
(* Every monomial: c x^i times d x^j, by exact rule, for every i.  With the    *)
(* linearity programs of RingGen these determine the transform.               *)
EXTENDS RingGen
CONSTANTS STEP
VARIABLES i, j
Js == {0, 1, 512, 1023} \cup {(k * 37 + 5) % N : k \in 1..STEP}
InitU == i \in D /\ j \in Js /\ Init
Mono(k, c) == [x \in {k} |-> Mod(c)]
C1 == IF i % 3 = 0 THEN 6144 ELSE IF i % 3 = 1 THEN 1 ELSE -6144
C2 == IF (i + j) % 4 = 0 THEN -6144 ELSE IF (i + j) % 4 = 1 THEN 1 ELSE IF (i + j) % 4 = 2 THEN -1 ELSE 4091
P(v) == [form |-> "plain", v |-> v]
Arg(v) == {<<k, Cen(v[k])>> : k \in DOMAIN v}
Prog == LET a == Mono(i, C1) b == Mono(j, C2) IN
  << Rec("load", 1, 0, Arg(a), P(a)), Rec("load", 2, 0, Arg(b), P(b)), Rec("mul", 1, 2, {}, P(SMul(a, b))) >>
NextU == FALSE /\ UNCHANGED <<vars, i, j>>
SpecU == InitU /\ [][NextU]_<<vars, i, j>>
EmitU == PrintT("@@" \o ToJson([t |-> "ring", dense |-> DENSE, hist |-> Prog]))
=============================================================================
