------------------------------- MODULE Scripts ------------------------------
(* Short histories, enumerated: each mode is a family of them over a parameter *)
(* record x.  The checks of the properties run the whole family, or a random   *)
(* part of it of size LIMIT.                                                   *)
EXTENDS World, Randomization
CONSTANTS MODE, LIMIT, DEEP, EVERY
VARIABLES x, w, fin
vars == <<x, w, fin>>
Key(p, i, h) == [g |-> p, n |-> i + (10 * h), h |-> h]
Mk(p, i) == Key(p, i, 2)
N0 == World0
Rings0 == [p \in Parties |-> [i \in 1..3 |-> IF p = 1 THEN "right" ELSE "none"]]
W0 == SetUp(N0, Rings0)
Envt(v, kind, h, ty) == [kind |-> kind, name |-> NewName(v), hdr |-> IF h THEN [HdrFor(kind, NewName(v)) EXCEPT !.type = IF ty = -1 THEN @ ELSE Atom("type" \o ToString(ty), 3 * ty)] ELSE None]
NoOf(v) == Len(v.msgs) + 1
From(v, p, l, f) == [LinkFor(v, p, f) EXCEPT !.id = v.msgs[l].m.name]
AnnounceG(v, p, h, k, k2, nt, craft) == Publish(v, p, Env(v, "announce", h) @@ [mss |-> k, ntru |-> nt, signer |-> k2, kn |-> Used(v, k2)], craft)
Announce(v, p, h, k, nt) == AnnounceG(v, p, h, k, k, IF nt THEN NtruPk(PairOf(p)) ELSE None, FALSE)
ChangeG(v, p, h, l, f, k, k1, k2, craft) == Publish(v, p, Env(v, "change_key", h) @@ [link |-> From(v, p, l, f), mss |-> k, signer |-> k1, kn |-> Used(v, k1), signer2 |-> k2, kn2 |-> Used(v, k2)], craft)
Signed(v, p, h, l, f, a, b, k) == Publish(v, p, Env(v, "signed", h) @@ [link |-> From(v, p, l, f), pub |-> Payload("public", NoOf(v), a), masked |-> Payload("masked", NoOf(v), b), signer |-> k, kn |-> Used(v, k)], FALSE)
Tagged(v, p, h, l, f, a, b) == Publish(v, p, Env(v, "tagged", h) @@ [link |-> From(v, p, l, f), pub |-> Payload("public", NoOf(v), a), masked |-> Payload("masked", NoOf(v), b)], FALSE)
KeyloadM(v, p, kind, h, l, f, ids, ps) == Env(v, kind, h) @@ [link |-> From(v, p, l, f), nonce |-> Nonce(NoOf(v)), key |-> KeyAtom(NoOf(v)), psks |-> [i \in 1..Len(ids) |-> [id |-> PskId(ids[i]), psk |-> PskName(ids[i], "right")]], pairs |-> [i \in 1..Len(ps) |-> PairOf(ps[i])], g |-> p]
Keyload(v, p, h, l, f, ids, ps) == Publish(v, p, KeyloadM(v, p, "keyload", h, l, f, ids, ps), FALSE)
SKeyload(v, p, h, l, f, ids, ps, k) == Publish(v, p, KeyloadM(v, p, "skeyload", h, l, f, ids, ps) @@ [signer |-> k, kn |-> Used(v, k)], FALSE)
Subscribe(v, p, h, l, f, owner, n) == Publish(v, p, Env(v, "subscribe", h) @@ [link |-> From(v, p, l, f), owner |-> PairOf(owner), sub |-> NtruPk(PairOf(p)), g |-> p, nonce |-> Nonce(n)], FALSE)
Unsubscribe(v, p, h, l, f) == Publish(v, p, Env(v, "unsubscribe", h) @@ [link |-> From(v, p, l, f)], FALSE)
HeaderOnly(v, p, kind, ty) == Publish(v, p, [Envt(v, kind, TRUE, ty) EXCEPT !.kind = "header"], FALSE)
Plain(v, p, i) == Read(v, p, i, NoTrick)
LastM(v) == Len(v.msgs)
LastOf(v) == v.msgs[Len(v.msgs)].m
ReadBy(v, ps) == FoldLeft(LAMBDA a, p : Plain(a, p, LastM(a)), v, ps)
ReadAll(v, p) == FoldLeft(LAMBDA a, i : IF Knows(a, p, i) THEN a ELSE Plain(a, p, i), v, [i \in 1..Len(v.msgs) |-> i])
TrickOn(v, p, i, t) == Read(v, p, i, t)
(* a message of any kind by party 1, or 2 for subscriptions, linked to message 1 (announcement) or 2 (what 2 subscribed) *)
AnyMsg(v, kind, h, a, b) ==
  CASE kind = "announce" -> Announce(v, 1, h, Mk(1, 2), TRUE) [] kind = "announce0" -> Announce(v, 1, h, Mk(1, 2), FALSE)
    [] kind = "change_key" -> ChangeG(v, 1, h, 1, 1, Mk(1, 2), Mk(1, 2), Mk(1, 1), FALSE)
    [] kind = "change_self" -> ChangeG(v, 1, h, 1, 1, Mk(1, 1), Mk(1, 1), Mk(1, 1), FALSE)
    [] kind = "signed" -> Signed(v, 1, h, 1, 1, a, b, Mk(1, 2)) [] kind = "tagged" -> Tagged(v, 1, h, 1, 1, a, b)
    [] kind = "keyload" -> Keyload(v, 1, h, 1, 1, <<1, 2>>, <<2, 3>>) [] kind = "skeyload" -> SKeyload(v, 1, h, 1, 1, <<1, 2>>, <<2, 3>>, Mk(1, 2))
    [] kind = "keyloadp" -> Keyload(v, 1, h, 1, 1, <<1, 2, 3>>, <<>>)
    [] kind = "subscribe" -> Subscribe(v, 2, h, 1, 1, 1, 1) [] kind = "unsubscribe" -> Unsubscribe(v, 2, h, 2, 2) [] kind = "header" -> HeaderOnly(v, 1, "tagged", -1)
Kinds == {"announce", "announce0", "change_key", "signed", "tagged", "keyload", "skeyload", "keyloadp", "subscribe", "unsubscribe", "header"}
AKinds == Kinds \ {"keyload", "keyloadp", "header"}
Base(rings) == LET v0 == TLCEval(ReadBy(Announce(SetUp(N0, rings), 1, FALSE, Mk(1, 1), TRUE), <<2, 3>>)) IN TLCEval(ReadBy(Subscribe(v0, 2, FALSE, 1, 1, 1, 1), <<1>>))
BaseW == Base([p \in Parties |-> [i \in 1..3 |-> IF p = 1 THEN "right" ELSE IF i = p THEN "right" ELSE "none"]])
Reader(kind) == IF kind \in {"subscribe", "unsubscribe"} THEN 1 ELSE 2
(* ---- the modes ---- *)
Sizes == {0, 1, 2, 13, 14, 27, 53, 54, 55, 80, 81, 82, 107, 108, 109, 161, 162, 163, 243, 324, 364, 365} \cup (IF DEEP THEN 3..40 \cup 150..175 \cup {486, 1000, 9841, 9842} ELSE {})
Few == {0, 1, 14, 81, 162, 365}
SizeX == [kind : {"signed", "tagged"}, h : BOOLEAN, a : Sizes, b : Sizes]
  \cup [kind : {"signed", "tagged"}, h : {FALSE}, a : {9841, 9842}, b : {0, 81}] \cup [kind : {"signed", "tagged"}, h : {FALSE}, a : {0, 81}, b : {9841, 9842}]
  \cup [kind : {"tagged"}, h : {TRUE}, a : {0, 10923, 32767, 32768, 65536}, b : {0, 10923, 32767, 32768, 65536}] \cup [kind : {"signed"}, h : {FALSE}, a : {32768}, b : {32768}]
SizeSome(s) == DEEP \/ s.kind = "tagged" \/ s.a \in Few \/ s.b \in Few \/ s.a = s.b
SizeRun == LET v == ReadBy(AnyMsg(BaseW, x.kind, x.h, x.a, x.b), <<2>>) IN ReadBy(Tagged(v, 2, x.h, LastM(v), LastM(v), 3, 30), <<1>>)
Heights == IF DEEP THEN 0..6 ELSE 0..5
Numbers(h) == IF DEEP THEN 0..(2 ^ h - 1) ELSE {0, 1, 2, 3, 2 ^ h - 1} \cup (IF h = 0 THEN {} ELSE {2 ^ (h - 1), 2 ^ (h - 1) - 1})
(* every key height and number: spend the key on packets first *)
KeysX == {[kind |-> k, h |-> h, kn |-> n, k2 |-> j] : k \in {"announce", "change_key", "signed", "skeyload"}, h \in Heights, n \in 0..63, j \in {0, 11, 12, 22, 32, 53, 84, 165}}
KeysRun == LET k == Key(1, 3, x.h) v0 == [BaseW EXCEPT !.used = (k :> x.kn) @@ @]
               v == IF x.kind = "announce" THEN Announce(v0, 1, TRUE, k, FALSE) ELSE IF x.kind = "signed" THEN Signed(v0, 1, FALSE, 1, 1, 10, 20, k) ELSE IF x.kind = "skeyload" THEN SKeyload(v0, 1, FALSE, 1, 1, <<2>>, <<>>, k)
                    ELSE LET k2 == Key(1, 4, x.k2 % 10) a == ReadBy(Announce([v0 EXCEPT !.used = (k2 :> (x.k2 \div 10) - 1) @@ @], 1, FALSE, k2, FALSE), <<2>>) IN ChangeG(a, 1, FALSE, LastM(a), LastM(a), k, k, k2, FALSE)
           IN ReadBy(v, <<2>>)
(* NTRU keys may go by identifiers of their users' choice, here such as differ in a trit or two *)
Aliased(al, v) == IF al THEN [v EXCEPT !.hist = <<[op |-> "aliases"]>> \o @] ELSE v
(* names that stand for particular trits: 0..2 all such, 3 the last third zero, 4 the first, 5 zero but for the last trit, 6 for the first, 7 the same trits again and again, 10 each name's the others' beginning *)
Interpreted(v, ns, d) == [v EXCEPT !.hist = <<[op |-> "interpret", names |-> ns, d |-> d]>> \o @]
Shapes == 0..7
Upto(n) == [i \in 1..n |-> 20 + i]
CountX == [np : {0, 1, 2, 13, 14, 27, 28, 41, 82, 300, 800}, nn : {0, 1, 2, 3, 13, 14, 27, 28, 41, 300}, pos : {1, 2, 3}]
(* hundreds of entries: numbers that need more than eight bits, or two trytes *)
CountSome(s) == IF s.np >= 300 \/ s.nn >= 300 THEN (s.nn <= 1 \/ s.np <= 1) /\ s.np + s.nn > 300 ELSE DEEP \/ s.np + s.nn <= 15 \/ (s.np > 15 /\ s.nn <= 1) \/ (s.nn > 15 /\ s.np <= 1)
PutIn(l, e, pos) == CASE pos = 1 -> <<e>> \o l [] pos = 2 -> l \o <<e>> [] OTHER -> SubSeq(l, 1, Len(l) \div 2) \o <<e>> \o SubSeq(l, (Len(l) \div 2) + 1, Len(l))
CountRun == LET ids == IF x.np = 0 THEN <<>> ELSE PutIn(Upto(x.np - 1), 2, x.pos)
                ps == IF x.nn = 0 THEN <<>> ELSE PutIn(Upto(x.nn - 1), IF x.nn % 2 = 0 THEN 3 ELSE 13, 4 - x.pos)
                v == ReadBy(Keyload(Aliased(x.pos = 2, BaseW), 1, x.pos = 1, 1, 1, ids, ps), <<2, 3>>)
            IN ReadBy(Tagged(v, 1, FALSE, LastM(v), LastM(v), 4, 5), <<2, 3>>)
TypeLens == {0, 1, 2, 3, 13, 14, 20, 27, 80, 81, 82, 161, 162, 163, 364, 365, 32768} \cup (IF DEEP THEN 4..40 \cup {9841, 9842} ELSE {})
(* types of all lengths, and such as end or begin with nines or have nothing else *)
HdrX == {s \in [ty : TypeLens, kind : {"header", "tagged"}, d : {-1} \cup Shapes] : s.d = -1 \/ s.ty \in {1, 3, 27, 80, 82, 365}}
HdrRun == LET as(v) == IF x.d = -1 THEN v ELSE Interpreted(v, {"type" \o ToString(x.ty)}, x.d)
              v == IF x.kind = "header" THEN HeaderOnly(as(W0), 1, "tagged", x.ty)
                   ELSE LET w1 == as(BaseW) e == Envt(w1, "tagged", TRUE, x.ty) IN Publish(w1, 1, e @@ [link |-> From(BaseW, 1, 1, 1), pub |-> Atom("p", 30), masked |-> Atom("q", 33)], FALSE)
              r == ReadBy(v, <<2>>)
          IN FoldLeft(LAMBDA a, b : Sweep(a, 2, LastM(a), b, EVERY), r, <<"app", "id", "alter">>)
(* three or four messages linked in a row, each by the party that did not write the one before where it can *)
LKinds == {"announce", "change_key", "signed", "tagged", "keyload", "skeyload", "subscribe", "unsubscribe"}
ChainX == {[ks |-> s, h |-> h] : s \in [1..(IF DEEP THEN 4 ELSE 3) -> LKinds], h \in BOOLEAN}
ChainStep(v, kind, n) == LET l == LastM(v) IN
  CASE kind = "announce" -> ReadBy(Announce(v, 1, x.h, Key(1, 5 + n, 1), TRUE), <<2, 3>>)
    [] kind = "change_key" -> IF v.know[1][l].key # NoKey /\ CanSign(v, v.know[1][l].key) THEN ReadBy(ChangeG(v, 1, x.h, l, l, Key(1, 5 + n, 2), Key(1, 5 + n, 2), v.know[1][l].key, FALSE), <<2, 3>>) ELSE v
    [] kind = "signed" -> ReadBy(Signed(v, 1, x.h, l, l, 1, 14 * n, Key(1, 5 + n, 1)), <<2, 3>>)
    [] kind = "tagged" -> ReadBy(Tagged(v, 2, x.h, l, l, 14 * n, 1), <<1, 3>>)
    [] kind = "keyload" -> ReadBy(Keyload(v, 1, x.h, l, l, <<3>>, <<2>>), <<2, 3>>)
    [] kind = "skeyload" -> ReadBy(SKeyload(v, 1, x.h, l, l, <<2>>, <<3>>, Key(1, 5 + n, 0)), <<2, 3>>)
    [] kind = "subscribe" -> ReadBy(Subscribe(v, 2, x.h, l, l, 1, n), <<1>>)
    [] kind = "unsubscribe" -> IF v.msgs[l].m.kind = "subscribe" THEN ReadBy(Unsubscribe(v, 2, x.h, l, l), <<1>>) ELSE v
ChainRun == LET s == FoldLeft(LAMBDA a, n : IF Knows(a, 1, LastM(a)) /\ Knows(a, 2, LastM(a)) THEN ChainStep(a, x.ks[n], n) ELSE a, BaseW, [n \in 1..Len(x.ks) |-> n]) IN s
(* long chains: message n is linked to message n - 1, or for every fifth to one further back *)
LongX == [seed : 1..(IF DEEP THEN 24 ELSE 8), h : BOOLEAN]
LongLen == IF DEEP THEN 150 ELSE 60
LongKind(i) == LET q == (7 * i + 5 * (i \div 3) * x.seed + x.seed) % 16 IN IF q = 0 THEN "signed" ELSE IF q = 1 THEN "keyload" ELSE IF q = 2 THEN "subscribe" ELSE IF q = 3 THEN "skeyload" ELSE "tagged"
Common(v) == {i \in 1..LastM(v) : \A p \in 1..3 : Knows(v, p, i)}
LongStep(v, n) == LET top == Max(Common(v)) l == IF n % 5 = 4 /\ top > 4 THEN Max(Common(v) \ {top, top - 1}) ELSE top k == LongKind(n) IN
  CASE k = "signed" -> ReadBy(Signed(v, 1, x.h, l, l, n, 14 * (n % 7), Key(1, 5 + n, 0)), <<2, 3>>)
    [] k = "tagged" -> LET p == 1 + (n % 3) IN ReadBy(Tagged(v, p, x.h, l, l, (7 * n) % 100, n), IF p = 1 THEN <<2, 3>> ELSE IF p = 2 THEN <<3, 1>> ELSE <<1, 2>>)
    [] k = "keyload" -> ReadBy(Keyload(v, 1, x.h, l, l, <<2>>, <<3>>), <<2, 3>>)
    [] k = "skeyload" -> ReadBy(SKeyload(v, 1, x.h, l, l, <<3, 2>>, <<>>, Key(1, 5 + n, 0)), <<2, 3>>)
    [] k = "subscribe" -> LET u == ReadBy(Subscribe(v, 2, x.h, l, l, 1, n), <<1>>) IN ReadBy(Tagged(u, 1, x.h, LastM(u), LastM(u), n, n), <<2>>)
LongBase == Base([p \in Parties |-> [i \in 1..3 |-> IF p = 1 \/ i = p THEN "right" ELSE "none"]])
LongRun == FoldLeft(LAMBDA a, n : LongStep(a, n), LongBase, [n \in 1..LongLen |-> n])
(* ---- tampering ---- *)
SweepX == [kind : Kinds, h : BOOLEAN, a : {"alter", "recalter", "app", "id", "cut", "cutrec", "near"}, b : {0, 20}]
Sensible(s) == /\ s.a \in {"recalter", "cutrec"} => s.kind = "signed"
               /\ s.a \in {"app", "id"} => s.h
               /\ s.kind = "header" => s.h
               /\ s.a = "near" => s.kind \in {"signed", "skeyload", "change_key"}
               /\ s.b = 0 \/ s.kind \in {"signed", "tagged"}
SweepRun == LET v == AnyMsg(BaseW, x.kind, x.h, x.b, x.b) IN Sweep(v, Reader(x.kind), LastM(v), x.a, EVERY)
(* keyloads cut short, read by those whose entry is first, last, behind others or not there *)
Orders(a, b) == {<<>>, <<a>>, <<b>>, <<a, b>>, <<b, a>>}
CutRingX == [kind : {"keyload", "skeyload"}, ids : Orders(1, 2), ps : Orders(2, 3), p : {2, 3, 4}]
CutRingRun == LET v0 == Read(BaseW, 4, 1, NoTrick) v == IF x.kind = "keyload" THEN Keyload(v0, 1, FALSE, 1, 1, x.ids, x.ps) ELSE SKeyload(v0, 1, FALSE, 1, 1, x.ids, x.ps, Mk(1, 2))
              IN Sweep(v, x.p, LastM(v), "cut", EVERY)
(* some of the names stand for trits all alike: the values a careless test for "nothing there" takes for nothing *)
SpecialNames(kind, h) == (IF h THEN {"app", "msg3"} ELSE {}) \cup
  CASE kind \in {"signed", "tagged"} -> {"msg1", "public3", "masked3"} [] kind = "change_key" -> {"msg1"} [] kind = "subscribe" -> {"msg1", "nonce1"} [] kind = "unsubscribe" -> {"msg2"}
    [] kind \in {"keyload", "keyloadp", "skeyload"} -> {"msg1", "nonce3", "session3", "psk", PskName(2, "right"), PskId(2)} [] OTHER -> {}
SpecialX == UNION {LET S == SpecialNames(kh[1], kh[2]) IN {[kind |-> kh[1], h |-> kh[2], d |-> dn[1], ns |-> dn[2]] : dn \in {y \in (Shapes \cup {10}) \X {T \in SUBSET S : T # {} /\ Cardinality(T) <= 2 /\ ~({"msg1", "msg3"} \subseteq T) /\ ~({"msg2", "msg3"} \subseteq T)} : IF y[1] < 3 THEN TRUE ELSE IF y[1] = 10 THEN Cardinality(y[2]) = 2 ELSE Cardinality(y[2]) = 1}}
                   : kh \in {y \in Kinds \X BOOLEAN : y[1] = "header" => y[2]}}
SpecialRun == LET v0 == Interpreted(BaseW, x.ns, x.d)
                  v == ReadBy(AnyMsg(v0, x.kind, x.h, 30, 40), IF Reader(x.kind) = 1 THEN <<1>> ELSE <<2, 3>>) n == LastM(v)
                  s == FoldLeft(LAMBDA a, b : Sweep(a, Reader(x.kind), n, b, EVERY), v, IF MODE # "specialsweep" THEN <<>> ELSE IF x.h /\ x.kind \in {"signed", "tagged", "unsubscribe"} THEN <<"alter", "app", "id">> ELSE <<"alter">>)
              IN IF x.kind = "header" THEN s ELSE LET z == ReadBy(Tagged(s, 2, x.h, n, n, 3, 30), <<1, 3>>) y == Read(Read(z, 4, 1, NoTrick), 4, LastM(z), NoTrick)   \* one who has only read the first
                                              IN LET u == Tagged(y, 2, x.h, n, 1, 3, 30) IN Read(Read(u, 4, LastM(u), NoTrick), 3, LastM(u), NoTrick)   \* the state of the first under a name that reader has nothing for
(* made from the state of another message than the one named, or read with another state under that name, or checked with another key *)
MisX == [kind : Kinds \ {"header", "announce", "announce0"}, l : 1..3, f : 0..3, h : BOOLEAN]
Mis0 == TLCEval(ReadBy(Tagged(BaseW, 1, FALSE, 1, 1, 5, 6), <<2, 3>>))
MisMsg(v, p, l, f) ==
  CASE x.kind = "change_key" -> ChangeG(v, p, x.h, l, f, Mk(p, 2), Mk(p, 2), Mk(1, 1), FALSE) [] x.kind = "signed" -> Signed(v, p, x.h, l, f, 5, 6, Mk(p, 2)) [] x.kind = "tagged" -> Tagged(v, p, x.h, l, f, 5, 6)
    [] x.kind \in {"keyload", "keyloadp"} -> Keyload(v, p, x.h, l, f, <<1, 2>>, <<2>>) [] x.kind = "skeyload" -> SKeyload(v, p, x.h, l, f, <<1, 2>>, <<2>>, Mk(p, 2))
    [] x.kind = "subscribe" -> Subscribe(v, p, x.h, l, f, 2, 1) [] x.kind = "unsubscribe" -> Unsubscribe(v, p, x.h, l, f)
(* f = 0: from a new sponge *)
MisRun == LET v0 == Mis0 v1 == IF x.f = 0 THEN [v0 EXCEPT !.know[1] = [i \in (DOMAIN @) \ {3} |-> @[i]]] ELSE v0
              v2 == MisMsg(v1, 1, x.l, IF x.f = 0 THEN 3 ELSE x.f)
          IN ReadBy(v2, <<2, 3>>)
TrustX == [kind : {"signed", "skeyload"}, h : 0..(IF DEEP THEN 3 ELSE 1), g : {1, 4}, i : 1..3, h2 : 0..2]
TrustRun == LET k == Key(1, 3, x.h) v == IF x.kind = "signed" THEN Signed(BaseW, 1, FALSE, 1, 1, 5, 6, k) ELSE SKeyload(BaseW, 1, FALSE, 1, 1, <<2>>, <<3>>, k)
                k2 == Key(x.g, x.i, x.h2)
            IN TrickOn(TrickOn(v, 2, LastM(v), [NoTrick EXCEPT !.a = "trust", !.key = k2]), 2, LastM(v), IF x.kind = "signed" THEN [NoTrick EXCEPT !.a = "recover"] ELSE NoTrick)
(* a field of one message in the place of the same field of another of its kind *)
SpliceX == [kind : Kinds \ {"header", "keyload", "keyloadp"}, h : BOOLEAN, seg : 1..14, same : BOOLEAN]
SpliceRun == LET v == AnyMsg(BaseW, x.kind, x.h, 30, 40) IN LET u == CASE x.kind = "announce" -> Announce(v, 1, x.h, IF x.same THEN Mk(1, 2) ELSE Mk(1, 3), TRUE) [] x.kind = "announce0" -> Announce(v, 1, x.h, IF x.same THEN Mk(1, 2) ELSE Mk(1, 3), FALSE)
                   [] x.kind = "change_key" -> ChangeG(v, 1, x.h, 1, 1, IF x.same THEN Mk(1, 2) ELSE Mk(1, 3), IF x.same THEN Mk(1, 2) ELSE Mk(1, 3), IF x.same THEN Mk(1, 2) ELSE Mk(1, 1), TRUE)
                   [] x.kind = "subscribe" -> Subscribe(v, IF x.same THEN 2 ELSE 3, x.h, 1, 1, 1, 2) [] x.kind = "unsubscribe" -> Unsubscribe(Subscribe(v, 2, FALSE, 1, 1, 1, 3), 2, x.h, LastM(v) + 1, LastM(v) + 1)
                   [] OTHER -> AnyMsg(v, x.kind, x.h, 30, 40)
             IN IF x.seg <= Len(u.msgs[3].segs) /\ u.msgs[3].segs[x.seg] # u.msgs[LastM(u)].segs[x.seg] /\ SegWidth(u.msgs[3].segs[x.seg]) >= 81
                THEN LET r == Reader(x.kind) IN TrickOn(Plain(u, r, LastM(u)), r, 3, [NoTrick EXCEPT !.a = "splice", !.seg = x.seg, !.other = LastM(u), !.oseg = x.seg]) ELSE u
(* ---- keyloads ---- *)
SeqsOf(n) == UNION {{s \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 0..n}
RingX == [ids : SeqsOf(3), ps : SeqsOf(3), r2 : [1..3 -> {"right", "wrong", "none"}], r4 : [1..3 -> {"wrong", "none"}], signed : BOOLEAN, h : BOOLEAN, al : BOOLEAN]
RingRun == LET v0 == Aliased(x.al, Base([p \in Parties |-> IF p = 1 THEN [i \in 1..3 |-> "right"] ELSE IF p = 2 THEN x.r2 ELSE IF p = 4 THEN x.r4 ELSE [i \in 1..3 |-> IF x.r2[1 + (i % 3)] = "right" THEN "none" ELSE "right"]]))
               v == Plain(v0, 4, 1)
               qs == [i \in DOMAIN x.ps |-> IF x.ps[i] = 3 /\ Len(x.ids) % 2 = 0 THEN 13 ELSE x.ps[i]]
               kl == IF x.signed THEN SKeyload(v, 1, x.h, 1, 1, x.ids, qs, Mk(1, 2)) ELSE Keyload(v, 1, x.h, 1, 1, x.ids, qs)
               r == ReadBy(kl, <<2, 3, 4>>)
           IN ReadBy(Tagged(r, 1, FALSE, LastM(kl), LastM(kl), 2, 3), <<2, 3, 4>>)
(* ---- endorsement of keys: all ways to put keys and signatures together; keys 1 (announced), 2, 3 of party 1 and 1 of the outsider *)
EKeys == {Mk(1, 1), Key(1, 2, 1), Key(1, 3, 2), Mk(4, 1)}
EndX == [k : EKeys, s1 : EKeys, s2 : EKeys, spent : {0, 1}, l : {1, 2}, h : BOOLEAN]
EndBase == LET a == ReadBy(Announce(W0, 1, FALSE, Mk(1, 1), FALSE), <<2>>) IN TLCEval(ReadBy(ChangeG([a EXCEPT !.used = (Key(1, 3, 2) :> 1) @@ @], 1, FALSE, 1, 1, Key(1, 3, 2), Key(1, 3, 2), Mk(1, 1), FALSE), <<2>>))
EndRun == LET fresh == [k \in EKeys |-> 0]
              v == [EndBase EXCEPT !.used = [k \in EKeys |-> x.spent]] IN ReadBy(ChangeG(v, 1, x.h, x.l, x.l, x.k, x.s1, x.s2, TRUE), <<2>>)
EndAX == [k : EKeys \cup {Key(1, 5, 0)}, s1 : EKeys \cup {Key(1, 5, 0)}, spent : {0, 1}, nt : {NtruPk(PairOf(1)), NtruPk(PairOf(4))} \cup {[t |-> "badtag", n |-> n] : n \in (-13..13) \ {0, 1}} \cup {[t |-> "badpk", a |-> a] : a \in {"zero", "big", "alias", "root"}}, h : BOOLEAN]
EndARun == ReadBy(AnnounceG([W0 EXCEPT !.used = [k \in EKeys \cup {Key(1, 5, 0)} |-> IF k.h = 0 THEN 0 ELSE x.spent]], 1, x.h, x.k, x.s1, x.nt, TRUE), <<2>>)
SensibleA(s) == s.k = s.s1 \/ s.nt.t = "ntrupk"
(* a chain of key changes; the last one is endorsed by the key number e of the chain *)
WalkX == {[n |-> n, e |-> e, h |-> h] : n \in 1..(IF DEEP THEN 5 ELSE 3), e \in 0..5, h \in BOOLEAN}
WKey(i) == Key(1, i + 1, 2 - (i % 2))
WalkRun == LET a == ReadBy(Announce(W0, 1, x.h, WKey(0), FALSE), <<2>>)
               b == FoldLeft(LAMBDA v, i : ReadBy(ChangeG(v, 1, x.h, i, i, WKey(i), WKey(i), WKey(i - 1), FALSE), <<2>>), a, [i \in 1..x.n |-> i])
               k == WKey(x.n + 1) IN
           IF CanSign(b, WKey(x.e)) /\ x.e <= x.n THEN ReadBy(ChangeG(b, 1, x.h, x.n + 1, x.n + 1, k, k, WKey(x.e), FALSE), <<2>>) ELSE b
(* ---- subscriptions: 2 and 3 subscribe (2 possibly twice, 3 possibly to the wrong owner), 1 and 3 read all; p unsubscribes naming l from the state of f *)
SubsX == [twice : BOOLEAN, own : {1, 2}, p : 2..4, l : 1..4, f : 1..4, h : BOOLEAN]
SubsRun == LET v0 == FoldLeft(LAMBDA a, p : Plain(a, p, 1), Announce(W0, 1, x.h, Mk(1, 1), TRUE), <<2, 3, 4>>)
               v1 == Subscribe(Subscribe(v0, 2, x.h, 1, 1, 1, 1), 3, x.h, 1, 1, x.own, 1)
               v2 == IF x.twice THEN Subscribe(v1, 2, x.h, 1, 1, 1, 2) ELSE Subscribe(v1, 4, x.h, 1, 1, 1, 1)
               v3 == FoldLeft(LAMBDA a, p : ReadAll(a, p), v2, <<1, 3, 2, 4>>)
               v4 == Unsubscribe(v3, x.p, x.h, x.l, x.f)
           IN FoldLeft(LAMBDA a, p : Plain(a, p, LastM(a)), v4, <<1, 2, 3>>)
(* a subscription read with each of the private keys *)
OwnX == [own : 1..4, o : 1..4, h : BOOLEAN]
OwnRun == LET v0 == FoldLeft(LAMBDA a, p : Plain(a, p, 1), Announce(W0, 1, x.h, Mk(1, 1), TRUE), <<2, 3, 4>>) v1 == Subscribe(v0, 2, x.h, 1, 1, x.own, 1)
          IN TrickOn(v1, 3, 2, [NoTrick EXCEPT !.a = "sk", !.other = x.o])
(* ---- headers ---- *)
VerX == [v : (-13..13) \ {1}, kind : Kinds]
VerRun == LET v == AnyMsg(BaseW, x.kind, TRUE, 5, 6) IN TrickOn(v, Reader(x.kind), LastM(v), [NoTrick EXCEPT !.a = "version", !.seg = 1, !.at = x.v])
(* ---- forgery: the commands of a message with one or two of them changed.  Reading is acceptance exactly when the sponge comes out the same *)
Mutations == [op : {"drop", "dup", "swap", "commit", "squeeze", "ext", "plain", "write", "jwrite", "jext", "jfresh", "jfreshid", "jidfresh", "jother", "mgarb"}, j : 1..16]
Applies(cs, u) == u.j <= Len(cs) /\
  CASE u.op \in {"drop", "dup", "commit", "squeeze", "ext"} -> u.op # "drop" \/ cs[u.j].c # "hash"
    [] u.op = "swap" -> u.j < Len(cs) /\ cs[u.j].c # "hash" [] u.op = "plain" -> cs[u.j].c = "mask" /\ SegWidth(cs[u.j].x) >= 81 [] u.op = "write" -> cs[u.j].c = "absorb"
    [] u.op \in {"jwrite", "jext", "jfresh", "jfreshid", "jidfresh", "jother"} -> cs[u.j].c = "join" [] u.op = "mgarb" -> cs[u.j].c = "mac"
Before(cs, j, ds) == SubSeq(cs, 1, j - 1) \o ds \o SubSeq(cs, j, Len(cs))
Instead(cs, j, ds) == SubSeq(cs, 1, j - 1) \o ds \o SubSeq(cs, j + 1, Len(cs))
Mutate(v, cs, u) == LET c == cs[u.j] id == IF c.c = "join" THEN Atom(c.link.id, 81) ELSE None new == IF c.c = "join" THEN [c.link EXCEPT !.ref = 0, !.st = <<>>] ELSE None IN
  CASE u.op = "drop" -> Instead(cs, u.j, <<>>) [] u.op = "dup" -> Before(cs, u.j, <<c>>) [] u.op = "swap" -> [cs EXCEPT ![u.j] = cs[u.j + 1], ![u.j + 1] = c]
    [] u.op = "commit" -> Before(cs, u.j, CommitC) [] u.op = "squeeze" -> Before(cs, u.j, Drop(81)) [] u.op = "ext" -> Before(cs, u.j, External(Atom("anything", 243)))
    [] u.op = "plain" -> Instead(cs, u.j, Absorb(c.x)) [] u.op = "write" -> Instead(cs, u.j, Write(c.x))
    [] u.op = "jwrite" -> Instead(cs, u.j, Write(id)) [] u.op = "jext" -> Instead(cs, u.j, Absorb(id)) [] u.op = "jfresh" -> Instead(cs, u.j, JoinLink(new))
    [] u.op = "jfreshid" -> Instead(cs, u.j, JoinLink(new) \o External(id)) [] u.op = "jidfresh" -> Instead(cs, u.j, Absorb(id) \o JoinOnly(new))
    [] u.op = "jother" -> Instead(cs, u.j, JoinLink([LinkFor(v, IF c.link.ref = 2 THEN 2 ELSE 1, IF c.link.ref = 1 THEN 2 ELSE 1) EXCEPT !.id = c.link.id]))
    [] u.op = "mgarb" -> Instead(cs, u.j, Write(Atom("anything", 243)))
NoMut == [op |-> "none", j |-> 0]
Forges(kinds, Second(_)) == UNION {LET cs == TLCEval(AllCmds(LastOf(AnyMsg(BaseW, kh[1], kh[2], 30, 40)))) M == {u \in Mutations : Applies(cs, u) /\ (u.op = "plain" => kh[2] \/ kh[1] = "subscribe")} IN
                 {[kind |-> kh[1], h |-> kh[2], u |-> p[1], u2 |-> p[2]] : p \in M \X Second(Len(cs))} : kh \in {y \in kinds \X BOOLEAN : y[1] = "header" => y[2]}}
Seconds(n) == {u \in Mutations : u.j <= n + 1} \cup {NoMut}
Some(n) == RandomSubset(IF DEEP THEN 40 ELSE 8, Seconds(n)) \cup {NoMut}
ForgeRun == LET m == LastOf(AnyMsg(BaseW, x.kind, x.h, 30, 40)) c1 == Mutate(BaseW, AllCmds(m), x.u) c2 == IF x.u2.j > 0 /\ x.u2.op # "plain" /\ Applies(c1, x.u2) THEN Mutate(BaseW, c1, x.u2) ELSE c1
            IN ReadBy(Forge(BaseW, IF x.kind \in {"subscribe", "unsubscribe"} THEN 2 ELSE 1, m, c2), <<Reader(x.kind)>>)
Xs == CASE MODE = "forge" -> Forges(Kinds, LAMBDA n : {NoMut}) [] MODE = "forge2" -> Forges(Kinds, Some) [] MODE = "forgesub" -> Forges({"unsubscribe"}, Seconds) \cup Forges({"subscribe"}, Some)
        [] MODE = "forgekey" -> Forges({"announce", "announce0", "change_key"}, Some) [] MODE = "size" -> {s \in SizeX : SizeSome(s)} [] MODE = "keys" -> {s \in KeysX : s.kn \in Numbers(s.h) /\ s.kn < 2 ^ s.h /\ (s.kind = "change_key" <=> s.k2 # 0)} [] MODE = "count" -> {s \in CountX : CountSome(s)} [] MODE = "hdr" -> HdrX [] MODE = "chain" -> ChainX [] MODE = "long" -> LongX
        [] MODE = "sweep" -> {s \in SweepX : Sensible(s) /\ s.kind \in AKinds /\ s.a \notin {"cut", "cutrec"}} [] MODE = "sweepkey" -> {s \in SweepX : Sensible(s) /\ s.a \in {"alter", "near"} /\ s.kind \in {"announce", "announce0", "change_key"}} \cup [kind : {"change_self"}, h : BOOLEAN, a : {"alter", "cut"}, b : {0}]
        [] MODE = "sweepsub" -> {s \in SweepX : Sensible(s) /\ s.a \in {"alter", "cut"} /\ s.kind \in {"subscribe", "unsubscribe"}} [] MODE = "cutkey" -> {s \in SweepX : Sensible(s) /\ s.a = "cut" /\ s.kind \in {"announce", "announce0", "change_key"}} [] MODE = "cut" -> {s \in SweepX : Sensible(s) /\ s.a \in {"cut", "cutrec"}}
        [] MODE = "cutring" -> CutRingX [] MODE = "context" -> {s \in SweepX : Sensible(s) /\ s.a \in {"app", "id"}} [] MODE = "mis" -> MisX [] MODE = "trust" -> {s \in TrustX : s.g = 4 \/ s.i # 3 \/ s.h2 # s.h} [] MODE = "splice" -> SpliceX
        [] MODE = "ring" -> RingX [] MODE = "endorse" -> EndX [] MODE = "announce" -> {s \in EndAX : SensibleA(s)} [] MODE = "walk" -> WalkX [] MODE = "subs" -> SubsX [] MODE = "own" -> OwnX [] MODE = "version" -> VerX [] MODE = "special" -> SpecialX [] MODE = "specialsweep" -> {s \in SpecialX : s.kind \in AKinds \ {"skeyload"}} [] MODE = "specialkey" -> {s \in SpecialX : s.kind \in {"keyload", "keyloadp", "skeyload"}}
Run == CASE MODE \in {"forge", "forge2", "forgesub", "forgekey"} -> ForgeRun [] MODE = "size" -> SizeRun [] MODE = "keys" -> KeysRun [] MODE = "count" -> CountRun [] MODE = "hdr" -> HdrRun [] MODE = "chain" -> ChainRun [] MODE = "long" -> LongRun
        [] MODE \in {"sweep", "sweepkey", "sweepsub", "cut", "cutkey", "context"} -> SweepRun [] MODE = "cutring" -> CutRingRun [] MODE = "mis" -> MisRun [] MODE = "trust" -> TrustRun [] MODE = "splice" -> SpliceRun
        [] MODE = "ring" -> RingRun [] MODE = "endorse" -> EndRun [] MODE = "announce" -> EndARun [] MODE = "walk" -> WalkRun [] MODE = "subs" -> SubsRun [] MODE = "own" -> OwnRun [] MODE = "version" -> VerRun [] MODE \in {"special", "specialkey", "specialsweep"} -> SpecialRun
Init == /\ x \in (LET S == TLCEval(Xs) IN IF LIMIT = 0 \/ Cardinality(S) <= LIMIT THEN S ELSE RandomSubset(LIMIT, S))
        /\ w = World0 /\ fin = FALSE
Next == ~fin /\ fin' = TRUE /\ w' = TLCEval(Run) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Agreement == AgreementIn(w)
Secrecy == SecrecyIn(w)
KeysEndorsed == KeysEndorsedIn(w)
UnsubscribedBy == UnsubscribedByIn(w)
Emit == fin => PrintT("@@" \o ToJson([t |-> "channel", mode |-> MODE, hist |-> w.hist]))
=============================================================================
