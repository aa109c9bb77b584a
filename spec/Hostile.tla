------------------------------- MODULE Hostile ------------------------------
(* Input nobody honest would send: messages whose author computed everything   *)
(* correctly around size and count fields that lie, wire values cut short or   *)
(* random, signatures of impossible shape.  The specification says how much    *)
(* input each reading needs; what needs more than there is must be an error,   *)
(* nothing may crash or take memory beyond what the input warrants.            *)
EXTENDS World
CONSTANTS MODE, DEEP
VARIABLES c
Pick(S) == RandomElement(S)
K1 == [g |-> 1, n |-> 12, h |-> 1]
LinkSt == Commit(In(<<>>, Atom("link state", 300)))
L1 == [id |-> "msg1", ref |-> 1, st |-> LinkSt]
Env1(kind, h) == [kind |-> kind, name |-> "msg2", hdr |-> IF h THEN HdrFor(IF kind = "header" THEN "tagged" ELSE kind, "msg2") ELSE None]
KM == [link |-> L1, nonce |-> Nonce(1), key |-> KeyAtom(1), psks |-> <<[id |-> PskId(2), psk |-> PskName(2, "right")], [id |-> PskId(1), psk |-> PskName(1, "right")]>>, pairs |-> <<PairOf(2), PairOf(1)>>, g |-> 1]
M(kind, h, n) ==
  CASE kind = "header" -> [Env1("header", TRUE) EXCEPT !.hdr.type = Atom("type", 3 * n)]
    [] kind = "announce" -> Env1(kind, h) @@ [mss |-> K1, ntru |-> NtruPk(PairOf(1)), signer |-> K1, kn |-> 0]
    [] kind = "change_key" -> Env1(kind, h) @@ [link |-> L1, mss |-> K1, signer |-> K1, kn |-> 0, signer2 |-> [K1 EXCEPT !.n = 13], kn2 |-> 0]
    [] kind = "signed" -> Env1(kind, h) @@ [link |-> L1, pub |-> Atom("public", 3 * n), masked |-> Atom("masked", 6 * n), signer |-> K1, kn |-> 1]
    [] kind = "tagged" -> Env1(kind, h) @@ [link |-> L1, pub |-> Atom("public", 3 * n), masked |-> Atom("masked", 6 * n)]
    [] kind = "keyload" -> Env1(kind, h) @@ KM [] kind = "skeyload" -> Env1(kind, h) @@ KM @@ [signer |-> K1, kn |-> 1]
    [] kind = "keyloadone" -> Env1("keyload", h) @@ [KM EXCEPT !.psks = <<@[1]>>, !.pairs = <<>>]
    [] kind = "keyloadnone" -> Env1("keyload", h) @@ [KM EXCEPT !.psks = <<>>, !.pairs = <<@[1]>>]
    [] kind = "subscribe" -> Env1(kind, h) @@ [link |-> L1, owner |-> PairOf(1), sub |-> NtruPk(PairOf(2)), g |-> 2, nonce |-> Nonce(1)]
    [] kind = "unsubscribe" -> Env1(kind, h) @@ [link |-> L1]
IsSize(x) == x.c \in {"absorb", "mask"} /\ x.x.t = "size"
(* ---- claims: codewords by head and digits, least first; lim: beyond 10^8 *)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE LET d == ((n + 13) % 27) - 13 IN <<d>> \o DigitsOf((n - d) \div 27)
RECURSIVE ValOf(_)
ValOf(ds) == IF ds = <<>> THEN 0 ELSE Head(ds) + (27 * ValOf(Tail(ds)))
Lim == 100000000
Code(n) == [head |-> Len(DigitsOf(n)), ds |-> DigitsOf(n), val |-> n, good |-> TRUE]
Big(k, d) == [head |-> k, ds |-> [i \in 1..k |-> IF i = k THEN d ELSE Pick(-13..13)], val |-> Lim, good |-> TRUE]
(* heads out of range, leading zero or negative leading digit, digits cut off *)
Bad(h, ds) == [head |-> h, ds |-> ds, val |-> Lim, good |-> FALSE]
Claims(n) == {Code(v) : v \in ({0, 1, n - 1, n + 1, n + 2, 2 * n, 13, 14, 364, 365, 9841, 9842, 20000, 265720, 265721, 1000000, 7174453, 7174454, 50000000} \cup (IF DEEP THEN 0..60 ELSE {})) \ {n, -1}}
        \cup {Big(k, d) : k \in 6..13, d \in {1, 13}} \cup {Bad(h, ds) : h \in {-13, -2, -1, 1, 2, 13}, ds \in {<<>>, <<0>>, <<-1>>, <<5, 0>>, <<5, -1>>, [i \in 1..13 |-> 13], [i \in 1..13 |-> -13]}}
(* claims that products and narrow counters wrap at: multiples of 2^31, 2^32, 2^63 and 2^64 divided by what an entry takes, rounded up, and the true value beyond powers of 2 *)
Wraps == {<<-13, -1, -7, 9, 2, 11>>,
  <<8, 11, -11, 0, -10, -10, 1>>,
  <<-12, -4, 6, -1, 7, 6, 1>>,
  <<11, -7, 13, -4, -9, -12, 6>>,
  <<-5, -13, -1, -7, 9, 2, 11>>,
  <<-10, 1, -3, 13, -10, 5, -5, 1>>,
  <<-11, 0, -3, 3, -4, 1, 3, -3, 4>>,
  <<-8, 4, 11, 10, 2, 3, -7, -10, -2, 10, 1>>,
  <<1, 0, -9, -13, 1, 2, -1, -9, 3, -5, 5>>,
  <<5, -11, 1, 13, -1, -13, -12, -12, 7, -4, 5>>,
  <<2, 0, 9, 0, 1, 4, -2, 9, 5, -10, 10>>,
  <<10, 5, 1, -1, -1, 1, 2, 2, 13, -8, 10>>,
  <<3, 0, 0, -13, 2, 6, -3, 0, 8, 12, -13, 1>>,
  <<-13, -5, 2, 12, -2, -12, -10, -10, -7, -11, -12, 1>>,
  <<4, 0, -9, 1, 2, 8, -4, -9, 11, 7, -8, 1>>,
  <<-8, 11, 2, -2, -2, 2, 4, 4, -1, 12, -8, 1>>,
  <<6, 0, 0, 1, 3, 12, -6, 0, -11, -2, 2, 1>>,
  <<1, -11, 4, -3, -3, 3, 6, 6, 12, 4, 2, 1>>,
  <<-2, 1, 11, 7, -9, -1, -13, 0, 3, 7, 3, 5>>,
  <<6, -8, -3, 10, 6, -11, 10, -1, 13, 9, -5, 7>>,
  <<-4, 2, -5, -12, 10, -3, 1, -1, 6, -13, 7, 10>>,
  <<4, 3, -11, -7, -10, 8, -8, -6, 12, -1, -1, 13>>,
  <<12, 11, -7, -7, 13, 5, -8, -1, -1, -8, -9, -13, 1>>,
  <<-7, 3, 6, -5, 1, -4, -12, -1, 9, -6, 10, -12, 1>>,
  <<-9, 4, -10, 3, -8, -5, 2, -2, 12, 1, 13, -7, 1>>,
  <<-3, -4, -13, 13, -2, 11, 11, -3, -2, 11, 8, 0, 1>>,
  <<13, 5, 12, -10, 2, -8, 3, -3, -9, -11, -7, 4, 1>>,
  <<8, 7, 7, 5, 11, -11, 4, -4, -3, 3, -1, -13, 2>>,
  <<-2, 11, -3, 8, 3, 11, 5, -6, 9, 4, 12, 7, 2>>,
  <<-11, -12, -12, 11, -5, 6, 7, -8, -6, 6, -2, 1, 3>>,
  <<-4, -5, -5, -11, 7, -5, 11, -12, -9, 9, -3, -12, 5>>,
  <<-6, 6, -8, -3, 10, 6, -11, 10, -1, 13, 9, -5, 7>>,
  <<10, -4, -12, -10, -2, -13, 12, 7, -1, -9, 11, -9, 8>>,
  <<-8, -10, -10, 5, 13, -10, -5, 4, 8, -10, -5, 3, 9>>}
RECURSIVE AddD(_, _)
AddD(ds, e) == IF e = 0 THEN ds ELSE IF ds = <<>> THEN DigitsOf(e) ELSE LET s == Head(ds) + e d == ((s + 40) % 27) - 13 IN <<d>> \o AddD(Tail(ds), (s - d) \div 27)
WrapClaims(n) == {LET ds == AddD(d, e) IN [head |-> Len(ds), ds |-> ds, val |-> Lim, good |-> TRUE] : d \in Wraps, e \in {0, 1, 2} \cup {n, n + 1}} \cup {Code(n + v) : v \in {128, 256, 32768, 65536, 16777216}}
(* the least that reading an entry of the list takes *)
Unit(m, cs, j) == IF m.kind \in {"keyload", "skeyload"} /\ j > (IF m.hdr = None THEN 0 ELSE 5) THEN (IF \E i \in 1..(j - 1) : cs[i].c = "fork" THEN 81 + 9216 ELSE 81 + 243) ELSE 3
RECURSIVE WidthOf(_)
WidthOf(x) == CASE x.c \in {"absorb", "mask"} -> Width(x.x) [] x.c = "join" -> 81 [] x.c = "mac" -> MacSize [] x.c = "sig" -> MssSigWidth(x.key) [] x.c = "kem" -> 9216
               [] x.c = "fork" -> Sum([i \in 1..Len(x.sub) |-> WidthOf(x.sub[i])]) [] OTHER -> 0
Rest(cs, j) == Sum([i \in 1..(Len(cs) - j) |-> WidthOf(cs[i + j])])
Lie(cs, j, k) == [cs EXCEPT ![j] = [c |-> @.c, x |-> [t |-> "code", head |-> k.head, ds |-> k.ds]]]
Auth == {"announce", "change_key", "signed", "skeyload", "tagged", "subscribe", "unsubscribe"}
Verdict1(m, cs, j, k, cut, pad) ==
  IF ~k.good THEN (IF k.head < 0 \/ (Len(k.ds) >= k.head /\ k.ds[k.head] <= 0) THEN "err" ELSE "any")   \* the rest may still be a message cut up in another way
  ELSE IF m.kind \in Auth THEN "err"
  ELSE IF k.val > 100000 \/ k.val * Unit(m, cs, j) > Rest(cs, j) + pad - cut THEN "err"
  ELSE IF m.kind = "header" THEN "ok" ELSE "any"
LieRec(m, j, k, cut, pad) == LET cs == AllCmds(m) IN [t |-> "hostile", kind |-> m.kind, m |-> Show(m), cmds |-> ShowCs(Lie(cs, j, k)), cut |-> cut, pad |-> pad, expect |-> Verdict1(m, cs, j, k, cut, pad)]
WrapCases == UNION {UNION {UNION {{LieRec(m, j, k, 0, 5000) @@ [blank |-> TRUE] : k \in WrapClaims(cs[j].x.n)} : j \in {i \in 1..Len(cs) : IsSize(cs[i])}} : cs \in {AllCmds(m)}}
             : m \in {M(q[1], q[2], q[3]) : q \in {<<"header", TRUE, 3>>, <<"tagged", FALSE, 3>>, <<"keyload", FALSE, 1>>, <<"keyloadone", FALSE, 1>>, <<"keyloadnone", FALSE, 1>>} \cup (IF DEEP THEN {<<"signed", TRUE, 20>>, <<"skeyload", TRUE, 1>>, <<"keyloadone", TRUE, 1>>} ELSE {})}}
LieCases == UNION {UNION {UNION {{LieRec(m, j, k, 0, pad) : k \in Claims(cs[j].x.n), pad \in IF DEEP THEN {0, 1, 5000} ELSE {0, 5000}} : j \in {i \in 1..Len(cs) : IsSize(cs[i])}} : cs \in {AllCmds(m)}}
             : m \in {M(q[1], q[2], q[3]) : q \in {y \in {"header", "signed", "tagged", "keyload", "skeyload"} \X BOOLEAN \X {0, 1, 20} : DEEP \/ y[3] = 1 \/ y[1] \in {"header", "tagged"}}} \cup {M(kd, TRUE, 1) : kd \in {"announce", "change_key", "subscribe", "unsubscribe"}}}
(* ---- single wire values: need trits, fewer is an error; "ok": any such trits are a value *)
Prims == [trint3 |-> <<3, "ok">>, trint6 |-> <<6, "ok">>, trint9 |-> <<9, "ok">>, trint18 |-> <<18, "ok">>, oneof |-> <<3, "ok">>, msgid |-> <<81, "ok">>, msspk |-> <<243, "ok">>, link |-> <<81, "any">>,
          ntrupk |-> <<9216, "any">>, kem |-> <<9216, "any">>, mac |-> <<243, "any">>, sigverify |-> <<13140, "any">>, sigrecover |-> <<13140, "any">>, ntrytes7 |-> <<21, "ok">>, trits100 |-> <<100, "ok">>,
          size |-> <<3, "any">>, trytes |-> <<3, "any">>]
Near(n) == (IF n <= 250 THEN 0..(n + 4) ELSE {0, 1, 2, 3, 17, 18, 19, 100, n - 244, n - 243, n - 242, n - 162, n - 3, n - 2, n - 1, n, n + 1, n + 9, n + 243, n + 486}) \cup (IF DEEP THEN {Pick(0..n) : i \in 1..40} ELSE {})
PrimCases == {[t |-> "prim", what |-> p, n |-> n, fill |-> f, expect |-> IF n < Prims[p][1] THEN "err" ELSE Prims[p][2]] : p \in DOMAIN Prims, n \in UNION {Near(Prims[q][1]) : q \in DOMAIN Prims}, f \in {"zero", "one", "two", "any1", "any2"}}
(* all short strings as sizes and as byte strings with a size *)
ShortCases == {[t |-> "short", what |-> p, n |-> n] : p \in {"size", "trytes", "oneof", "trint3", "trint6"}, n \in 0..(IF DEEP THEN 10 ELSE 8)}
(* ---- signatures whose header claims a height and a number *)
Hs == {-40, -2, -1, 0, 1, 2, 10, 19, 20, 21, 39, 40}
Ks == {-2391484, -797162, -2, -1, 0, 1, 2, 3, 1023, 1024, 524287, 524288, 1048575, 1048576, 2391483, 2391484}
ClaimedWidth(h) == 18 + (162 * 81) + (243 * h)
SigCases == {[t |-> "sig", h |-> h, k |-> k, n |-> n, expect |-> IF h < 0 \/ k < 0 \/ (h <= 20 /\ k >= 2 ^ h) \/ n < ClaimedWidth(h) THEN "err" ELSE "notsigner"] :
              h \in Hs, k \in Ks, n \in {18, 19, 13139, 13140, 13141} \cup {ClaimedWidth(IF g < 0 THEN 0 ELSE g) + d : d \in {-1, 0, 1}, g \in Hs} \cup {25000}}
(* ---- whole messages of random trits, beginning as a message does or not *)
RndCases == {[t |-> "random", kind |-> kd, start |-> s, n |-> n, no |-> i, expect |-> IF kd \in Auth THEN "err" ELSE "any"] :
              kd \in Auth \cup {"header", "keyload"}, s \in {"none", "link", "header", "both"}, n \in {0, 1, 3, 81, 84, 243, 1000, 9300, 14000, 30000}, i \in 1..(IF DEEP THEN 60 ELSE 6)}
Items == CASE MODE = "lie" -> LieCases [] MODE = "wrap" -> WrapCases [] MODE = "prim" -> PrimCases [] MODE = "short" -> ShortCases [] MODE = "sig" -> SigCases [] MODE = "random" -> RndCases
Init == c \in Items
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
