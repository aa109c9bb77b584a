------------------------------- MODULE Channel ------------------------------
(* A channel: parties publish messages linked to earlier ones and anybody may  *)
(* read any message, as it is, altered, under a changed header or with another *)
(* key.                                                                        *)
EXTENDS World
CONSTANTS SIM,      \* TRUE: choices are random samples; FALSE: all choices
          KINDS,    \* kinds published
          TRICKS,   \* what else happens: subset of {"alter", "cut", "header", "trust", "sk", "recover", "craft", "guess", "splice", "reread"}
          SIZES,    \* payload sizes in trytes
          HDR,      \* messages carry headers: "yes", "no", "some"
          DEPTH, MAXMSG, OPTS,  \* OPTS: heights of signing keys
          READS     \* TRUE: mostly read what can be read
VARIABLES w, steps, fin
vars == <<w, steps, fin>>
Sel(S) == IF SIM THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
SelN(S, n) == IF SIM THEN {RandomElement(S) : z \in 1..n} ELSE S
Flip(n) == IF SIM THEN {RandomElement(1..n) = 1} ELSE {TRUE, FALSE}
MssKeys(p) == {[g |-> p, n |-> i + (10 * h), h |-> h] : i \in IF p \in {1, PARTIES} THEN 1..2 ELSE {}, h \in OPTS}
Ids == 1..3
WithHdr == CASE HDR = "yes" -> {TRUE} [] HDR = "no" -> {FALSE} [] OTHER -> Flip(2)
Links(p) == LET own == DOMAIN w.know[p] all == 1..Len(w.msgs) IN
   IF "guess" \in TRICKS THEN (IF SIM /\ own # {} /\ RandomElement(1..5) > 1 THEN own ELSE all) ELSE own
Crafting == IF "craft" \in TRICKS THEN Flip(3) ELSE {FALSE}
SomeKeyLeft(p) == \E k \in MssKeys(p) : CanSign(w, k)
SomeKey(p) == Sel({k \in MssKeys(p) : CanSign(w, k)})
Emits(p, m, craft) == w' = TLCEval(Publish(w, p, m, craft))
PubAnnounce(p, h) == \E k \in SomeKey(p), nt \in Flip(4), cr \in Crafting : \E k2 \in Sel(IF cr THEN {x \in MssKeys(p) : CanSign(w, x)} \cup {k} ELSE {k}) :
   Emits(p, Env(w, "announce", h) @@ [mss |-> k, ntru |-> IF nt THEN None ELSE NtruPk(PairOf(p)), signer |-> k2, kn |-> Used(w, k2)], cr)
(* keys of others cannot sign; crafted messages put a key next to signatures by keys the party has *)
PubChange(p, h) == \E l \in Sel({i \in Links(p) : w.msgs[i].m.kind \in {"announce", "change_key"}}), k \in SomeKey(p), cr \in Crafting :
   \E k1 \in Sel(IF cr THEN {x \in MssKeys(p) : CanSign(w, x)} ELSE {k}), k2 \in Sel({x \in MssKeys(p) : CanSign(w, x)}) :
   LET right == IF Knows(w, p, l) /\ w.know[p][l].key.g = p /\ CanSign(w, w.know[p][l].key) THEN w.know[p][l].key ELSE k2
   IN \E s2 \in Sel(IF "craft" \in TRICKS /\ SIM /\ RandomElement(1..2) = 1 THEN {k2} ELSE {right}) :
      /\ k1 # s2 /\ Emits(p, Env(w, "change_key", h) @@ [link |-> LinkFor(w, p, l), mss |-> k, signer |-> k1, kn |-> Used(w, k1), signer2 |-> s2, kn2 |-> Used(w, s2)], cr)
NextNo == Len(w.msgs) + 1
PubSigned(p, h) == \E l \in Sel(Links(p)), k \in SomeKey(p), a \in Sel(SIZES), b \in Sel(SIZES) :
   Emits(p, Env(w, "signed", h) @@ [link |-> LinkFor(w, p, l), pub |-> Payload("public", NextNo, a), masked |-> Payload("masked", NextNo, b), signer |-> k, kn |-> Used(w, k)], FALSE)
PubTagged(p, h) == \E l \in Sel(Links(p)), a \in Sel(SIZES), b \in Sel(SIZES) :
   Emits(p, Env(w, "tagged", h) @@ [link |-> LinkFor(w, p, l), pub |-> Payload("public", NextNo, a), masked |-> Payload("masked", NextNo, b)], FALSE)
Orders(S) == IF SIM THEN {RandomElement(SetToSeqs(S))} ELSE {SetToSeq(S)}
PubKeyload(p, h, kind) == \E l \in Sel(Links(p)), n \in Sel(1..2), k \in Sel(1..2),
     ps \in Sel(SUBSET {i \in Ids : i \in DOMAIN w.rings[p] /\ w.rings[p][i] = "right"}), qs \in Sel(SUBSET ((Parties \ {PARTIES}) \cup (IF SIM THEN {12} ELSE {}))) :
   \E pl \in Orders(ps), ql \in Orders(qs), sk \in (IF kind = "skeyload" THEN SomeKey(p) ELSE {NoKey}) :
   Emits(p, Env(w, kind, h) @@ [link |-> LinkFor(w, p, l), nonce |-> Nonce(n), key |-> KeyAtom((10 * p) + k), psks |-> [i \in 1..Len(pl) |-> [id |-> PskId(pl[i]), psk |-> PskName(pl[i], "right")]],
                pairs |-> [i \in 1..Len(ql) |-> PairOf(ql[i])], g |-> p] @@ (IF kind = "skeyload" THEN [signer |-> sk, kn |-> Used(w, sk)] ELSE <<>>), FALSE)
Subscribables(p) == {i \in Links(p) : w.msgs[i].m.kind = "announce" /\ w.msgs[i].m.ntru # None /\ w.msgs[i].m.ntru.t = "ntrupk"}
PubSubscribe(p, h) == \E l \in Sel(Subscribables(p)), n \in Sel(1..3), q \in Sel({1, 2}) :
   Emits(p, Env(w, "subscribe", h) @@ [link |-> LinkFor(w, p, l), owner |-> IF q = 1 THEN w.msgs[l].m.ntru.pair ELSE PairOf(q), sub |-> NtruPk(PairOf(p)), g |-> p, nonce |-> Nonce(n)], FALSE)
(* anybody can link an unsubscription to any message; only the subscriber's state makes it acceptable *)
PubUnsubscribe(p, h) == \E c \in (IF SIM THEN {RandomElement(1..4)} ELSE {1, 4}) :
   \E l \in Sel(IF c # 4 THEN {i \in Links(p) : w.msgs[i].m.kind = "subscribe"} ELSE Links(p)) :
   \E f \in Sel(IF "guess" \in TRICKS /\ c # 1 THEN Links(p) ELSE {l}) :   \* state taken from another message
   Emits(p, Env(w, "unsubscribe", h) @@ [link |-> [LinkFor(w, p, f) EXCEPT !.id = w.msgs[l].m.name]], FALSE)
PubHeader(p, h) == Emits(p, [kind |-> "header", name |-> NewName(w), hdr |-> HdrFor("tagged", NewName(w))], FALSE)
Can(p, kind) == CASE kind = "announce" -> SomeKeyLeft(p) [] kind = "header" -> TRUE
  [] kind = "change_key" -> SomeKeyLeft(p) /\ \E i \in Links(p) : w.msgs[i].m.kind \in {"announce", "change_key"}
  [] kind \in {"signed", "skeyload"} -> SomeKeyLeft(p) /\ Links(p) # {}
  [] kind \in {"tagged", "keyload"} -> Links(p) # {}
  [] kind = "subscribe" -> Subscribables(p) # {}
  [] kind = "unsubscribe" -> \E i \in Links(p) : w.msgs[i].m.kind = "subscribe"
DoPublish == /\ Len(w.msgs) < MAXMSG
           /\ \E kind \in Sel({x \in KINDS : \E p \in Parties : Can(p, x)}) : \E p \in Sel({q \in Parties : Can(q, kind)}), h \in WithHdr :
              CASE kind = "announce" -> PubAnnounce(p, h) [] kind = "change_key" -> PubChange(p, h) [] kind = "signed" -> PubSigned(p, h) [] kind = "tagged" -> PubTagged(p, h)
                [] kind \in {"keyload", "skeyload"} -> PubKeyload(p, h, kind) [] kind = "subscribe" -> PubSubscribe(p, h) [] kind = "unsubscribe" -> PubUnsubscribe(p, h) [] kind = "header" -> PubHeader(p, h)
(* ---- reading ---- *)
ASeg(i) == Sel(1..Len(w.msgs[i].segs))
APos(i, s, n) == SelN(0..(SegWidth(w.msgs[i].segs[s]) - 1), n)
Full(i) == {s \in 1..Len(w.msgs[i].segs) : SegWidth(w.msgs[i].segs[s]) > 0}
Alterations(i, a, n) == UNION {{[NoTrick EXCEPT !.a = a, !.seg = s, !.at = at, !.d = d] : at \in APos(i, s, n), d \in SelN(1..2, 1)} : s \in Sel(Full(i))}
Tricks(p, i) == LET m == w.msgs[i].m IN
   (IF "alter" \in TRICKS THEN Alterations(i, "alter", 2) ELSE {})
   \cup (IF "cut" \in TRICKS THEN Alterations(i, "cut", 1) ELSE {})
   \cup (IF "header" \in TRICKS /\ m.hdr # None THEN {[NoTrick EXCEPT !.a = "app", !.at = at, !.d = d] : at \in SelN({0, 80, 242} \cup 0..242, 1), d \in SelN(1..2, 1)}
                                                \cup {[NoTrick EXCEPT !.a = "id", !.at = at, !.d = d] : at \in SelN({0, 26, 80} \cup 0..80, 1), d \in SelN(1..2, 1)} ELSE {})
   \cup (IF "trust" \in TRICKS /\ m.kind \in {"signed", "skeyload"} THEN {[NoTrick EXCEPT !.a = "trust", !.key = k] : k \in Sel((MssKeys(1) \cup MssKeys(PARTIES)) \ {m.signer})} ELSE {})
   \cup (IF "sk" \in TRICKS /\ m.kind = "subscribe" THEN {[NoTrick EXCEPT !.a = "sk", !.other = o] : o \in Sel(Parties)} ELSE {})
   \cup (IF "recover" \in TRICKS /\ m.kind = "signed" THEN {[NoTrick EXCEPT !.a = "recover"]} \cup Alterations(i, "recalter", 2) ELSE {})
   \cup (IF "splice" \in TRICKS THEN {[NoTrick EXCEPT !.a = "splice", !.seg = x[1], !.other = x[2], !.oseg = x[3]] : x \in Sel({y \in (1..Len(w.msgs[i].segs)) \X ((1..Len(w.msgs)) \ {i}) \X (1..14) :
              /\ y[3] <= Len(w.msgs[y[2]].segs) /\ SegWidth(w.msgs[i].segs[y[1]]) = SegWidth(w.msgs[y[2]].segs[y[3]]) /\ w.msgs[i].segs[y[1]] # w.msgs[y[2]].segs[y[3]] /\ SegWidth(w.msgs[i].segs[y[1]]) >= 81})} ELSE {})
Readable(p, i) == LET m == w.msgs[i].m IN "link" \notin DOMAIN m \/ \E j \in DOMAIN w.know[p] : w.msgs[j].m.name = m.link.id
DoRead(p, i, t) == w' = TLCEval(Read(w, p, i, t))
ReadSome == IF SIM
   THEN \E c \in {RandomElement(1..6)} :
        LET open == {x \in Parties \X (1..Len(w.msgs)) : Readable(x[1], x[2])} fresh == {x \in open : ~Knows(w, x[1], x[2])} all == Parties \X (1..Len(w.msgs)) IN
        \E x \in {RandomElement(IF c <= 3 /\ READS /\ fresh # {} THEN fresh ELSE IF c <= 5 /\ open # {} THEN open ELSE all)} :
          \E t \in {IF c <= 3 /\ READS THEN NoTrick ELSE RandomElement({NoTrick} \cup Tricks(x[1], x[2]))} :
            (t # NoTrick \/ ~Knows(w, x[1], x[2]) \/ "reread" \in TRICKS) /\ DoRead(x[1], x[2], t)
   ELSE \E p \in Parties, i \in 1..Len(w.msgs) : ~Knows(w, p, i) /\ \E t \in {NoTrick} \cup Tricks(p, i) : DoRead(p, i, t)
Init == w = World0 /\ steps = 0 /\ fin = FALSE
RingSets == [Ids -> {"right", "wrong", "none"}]
DoSetUp == \E fs \in (IF SIM THEN {[p \in Parties |-> IF p = 1 THEN [i \in Ids |-> "right"] ELSE IF p = PARTIES THEN [i \in Ids |-> RandomElement({"wrong", "none"})] ELSE RandomElement(RingSets)]}
                       ELSE {[p \in Parties |-> [i \in Ids |-> IF p = 1 THEN "right" ELSE IF p = PARTIES THEN (IF i = 1 THEN "wrong" ELSE "none") ELSE IF i = p THEN "right" ELSE "none"]]}) :
            w' = SetUp(w, TLCEval(fs))
Step == IF w.rings = <<>> THEN DoSetUp ELSE IF SIM THEN \E c \in {RandomElement(1..5)} : IF w.msgs = <<>> \/ (c <= 2 /\ Len(w.msgs) < MAXMSG) THEN DoPublish ELSE ReadSome
        ELSE DoPublish \/ ReadSome
Next == \/ ~fin /\ steps < DEPTH /\ steps' = steps + 1 /\ UNCHANGED fin /\ Step
        \/ SIM /\ ~fin /\ w.rings # <<>> /\ steps < DEPTH /\ steps' = steps + 1 /\ UNCHANGED <<w, fin>>
        \/ SIM /\ ~fin /\ steps = DEPTH /\ fin' = TRUE /\ UNCHANGED <<w, steps>>
Spec == Init /\ [][Next]_vars
(* worlds that differ in the order of events only are one *)
View == <<w.msgs, w.know, w.rings, w.used, fin>>
Agreement == AgreementIn(w)
Secrecy == SecrecyIn(w)
KeysEndorsed == KeysEndorsedIn(w)
UnsubscribedBy == UnsubscribedByIn(w)
OneUse == OneUseIn(w)
Emit == fin => PrintT("@@" \o ToJson([t |-> "channel", hist |-> w.hist]))
=============================================================================
