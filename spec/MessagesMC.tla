----------------------------- MODULE MessagesMC -----------------------------
(* All messages of a small universe, received unchanged, with one segment      *)
(* altered or taken from another message, cut short, or in another context.    *)
EXTENDS Wire
CONSTANTS KINDS, APPS
VARIABLES m,      \* message sent: [st (sponge before), kind, hdr, ...]
          o,      \* another message
          ch      \* what happens to it
vars == <<m, o, ch>>
K(n) == [g |-> 1, n |-> n, h |-> 0]
P(n) == [g |-> 1, n |-> n]
LSt(i) == CASE i = 1 -> In(<<>>, Atom("l1", 100)) [] i = 2 -> In(<<>>, Atom("l2", 100)) [] OTHER -> <<>>
LName(i) == CASE i = 1 -> "link1" [] i = 2 -> "link2" [] OTHER -> "link3"
Link(i) == [id |-> LName(i), st |-> LSt(i), key |-> K(i)]
Lookup == [n \in {"link1", "link2"} |-> IF n = "link1" THEN Link(1) ELSE Link(2)]
(* a receiver who knows nothing but has other sponges under these names *)
Wrong == [n \in {"link1", "link2"} |-> [(IF n = "link1" THEN Link(1) ELSE Link(2)) EXCEPT !.st = <<>>]]
Hdrs(kind) == {None} \cup {[ver |-> 1, type |-> Str(TypeName(IF kind = "header" THEN "tagged" ELSE kind)), app |-> a, id |-> i] : a \in APPS, i \in {"id1", "id2"}}
Pay == {Atom("p", 0), Atom("q", 3)}
Psk1 == [id |-> "pskid1", psk |-> "psk1"]
Psk2 == [id |-> "pskid2", psk |-> "psk2"]
Key(i) == Atom(IF i = 1 THEN "key1" ELSE "key2", 243)
Non(i) == Atom(IF i = 1 THEN "non1" ELSE "non2", 81)
Base(kind) == [kind : {kind}, hdr : Hdrs(kind)]
Ext(S, f) == {s @@ f : s \in S}
Cont(kind) ==
  CASE kind = "header" -> {<<>>}
    [] kind = "announce" -> {[mss |-> K(a), ntru |-> n, signer |-> K(a), kn |-> 0] : a \in {1, 2}, n \in {None, NtruPk(P(1)), NtruPk(P(2))}}
    [] kind = "change_key" -> {[link |-> Link(l), mss |-> K(a), signer |-> K(a), kn |-> 0, signer2 |-> K(l), kn2 |-> 0] : l \in {1, 2}, a \in {1, 3}}
    [] kind = "signed" -> {[link |-> Link(l), pub |-> p, masked |-> q, signer |-> K(a), kn |-> 0] : l \in {1, 2}, p \in Pay, q \in Pay, a \in {1, 2}}
    [] kind = "tagged" -> {[link |-> Link(l), pub |-> p, masked |-> q] : l \in {1, 2}, p \in Pay, q \in Pay}
    [] kind \in {"keyload", "skeyload"} -> {[link |-> Link(1), nonce |-> Non(n), key |-> Key(1), psks |-> ps, pairs |-> qs, g |-> 1] @@ (IF kind = "keyload" THEN <<>> ELSE [signer |-> K(1), kn |-> 0]) :
           n \in {1, 2}, ps \in {<<>>, <<Psk1>>, <<Psk1, Psk2>>, <<Psk2, Psk1>>}, qs \in {<<>>, <<P(1)>>, <<P(2), P(1)>>}}
    [] kind = "subscribe" -> {[link |-> Link(l), owner |-> P(a), sub |-> NtruPk(P(b)), g |-> 1, nonce |-> Non(n)] : l \in {1, 2}, a \in {1, 2}, b \in {2, 3}, n \in {1, 2}}
    [] kind = "unsubscribe" -> {[link |-> Link(l)] : l \in {1, 2}}
Msgs(kind) == {b @@ c : b \in Base(kind), c \in Cont(kind)}
Wiring(x) == Send(<<>>, x)
NSegs(x) == Len(Wiring(x).segs)
Swaps == {"announce", "change_key", "signed", "tagged", "subscribe", "unsubscribe"}
(* contexts of a receiver *)
Ctx(x) == [hdr |-> x.hdr, lookup |-> Lookup, trust |-> (IF x.kind \in {"signed", "skeyload"} THEN x.signer ELSE K(9)), psks |-> [i \in {"pskid1"} |-> "psk1"], sks |-> [p \in {P(1)} |-> p], sk |-> IF x.kind = "subscribe" THEN x.owner ELSE P(9)]
Listed(x) == x.kind \in {"keyload", "skeyload"} => (Psk1 \in ToSet(x.psks) \/ P(1) \in ToSet(x.pairs))
SameButHdr(x, y) == x.kind = y.kind /\ [x EXCEPT !.hdr = None] = [y EXCEPT !.hdr = None]
Init == /\ m \in UNION {Msgs(k) : k \in KINDS}
        /\ \/ o = m /\ ch \in {[c |-> "none", i |-> 0, j |-> 0], [c |-> "link", i |-> 0, j |-> 0], [c |-> "trust", i |-> 0, j |-> 0], [c |-> "sk", i |-> 0, j |-> 0], [c |-> "recover", i |-> 0, j |-> 0]}
                              \cup [c : {"alter", "recalter"}, i : 1..NSegs(m), j : {1}] \cup [c : {"cut"}, i : 0..(NSegs(m) - 1), j : {0}]
           \/ o \in Msgs(m.kind) /\ o # m /\ ch \in [c : {"context"}, i : {0}, j : {0}]
           \/ m.kind \in Swaps /\ o \in Msgs(m.kind) /\ o # m /\ \E i \in 1..NSegs(m) : \E j \in 1..NSegs(o) :
                 SegWidth(Wiring(m).segs[i]) = SegWidth(Wiring(o).segs[j]) /\ Wiring(m).segs[i] # Wiring(o).segs[j] /\ ch = [c |-> "swap", i |-> i, j |-> j]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
W == Wiring(m)
Cond == ch.c
Got == LET x == Ctx(m) IN
  CASE Cond = "none" -> Recv(<<>>, m.kind, W.segs, x)
    [] Cond = "alter" -> Recv(<<>>, m.kind, [W.segs EXCEPT ![ch.i] = Alt(@, 1)], x)
    [] Cond = "cut" -> Recv(<<>>, m.kind, SubSeq(W.segs, 1, ch.i), x)
    [] Cond = "link" -> Recv(<<>>, m.kind, W.segs, [x EXCEPT !.lookup = Wrong])
    [] Cond = "trust" -> Recv(<<>>, m.kind, W.segs, [x EXCEPT !.trust = K(8)])
    [] Cond = "sk" -> Recv(<<>>, m.kind, W.segs, [x EXCEPT !.sk = P(8)])
    [] Cond = "context" -> Recv(<<>>, m.kind, W.segs, [x EXCEPT !.hdr = o.hdr])
    [] Cond = "swap" -> Recv(<<>>, m.kind, [W.segs EXCEPT ![ch.i] = Wiring(o).segs[ch.j]], x)
    [] OTHER -> LET s == IF Cond = "recalter" THEN [W.segs EXCEPT ![ch.i] = Alt(@, 1)] ELSE W.segs IN IF m.kind = "signed" THEN Recv(<<>>, "recover", s, x) ELSE RecvInit(<<>>, s)
AuthKinds == {"announce", "change_key", "signed", "tagged", "subscribe", "unsubscribe"}
HdrTrue(x, y) == x.hdr = y.hdr
(* the last segment is part of what follows when segments are cut off the end *)
RoundTrip == Cond = "none" => (IF Listed(m) THEN Ok(Got) /\ Got.st = W.st /\ Got.in = <<>> ELSE Got.err = "KeyNotFound")
ContentBack == Cond = "none" /\ m.kind \in {"signed", "tagged"} => \E i \in 1..Len(Got.out) : \E j \in (i + 2)..Len(Got.out) : Got.out[i] = m.pub /\ Got.out[j] = m.masked
KeyBack == Cond = "none" /\ m.kind = "subscribe" => Last1(Got) = m.sub
CutShort == Cond = "cut" => ~Ok(Got)
Tampered == Cond = "alter" /\ m.kind \in AuthKinds => ~Ok(Got)
(* an altered keyload is refused when its signature is checked, unless the alteration lies in a recipient entry that    *)
(* is then not opened: entries of others, or an own one if there is another; in that case the state is the author's    *)
IsEntry(i) == LET h == IF m.hdr = None THEN 0 ELSE 3 IN
  \/ i \in (h + 4)..(h + 3 + (2 * Len(m.psks)))
  \/ i \in (h + 5 + (2 * Len(m.psks)))..(h + 4 + (2 * Len(m.psks)) + (2 * Len(m.pairs)))
TamperedKeyload == Cond = "alter" /\ m.kind = "skeyload" => (~IsEntry(ch.i) => ~Ok(Got)) /\ (Ok(Got) => Got.st = W.st)
Substituted == Cond = "swap" => ~Ok(Got)
WrongLink == Cond = "link" /\ m.kind \in {"change_key", "signed", "tagged", "subscribe", "unsubscribe", "skeyload"} => ~Ok(Got)
WrongKey == (Cond = "trust" /\ m.kind \in {"signed", "skeyload"} => ~Ok(Got)) /\ (Cond = "sk" /\ m.kind = "subscribe" => ~Ok(Got))
Misplaced == Cond = "context" /\ m.kind \in AuthKinds /\ m.hdr # None /\ o.hdr # None /\ m.hdr # o.hdr => ~Ok(Got)
RecoversSigner == Cond = "recover" /\ m.kind = "signed" => Ok(Got) /\ Last1(Got) = MssPk(m.signer)
RecoverTampered == Cond = "recalter" /\ m.kind = "signed" => ~Ok(Got) \/ Last1(Got) # MssPk(m.signer)
=============================================================================
