-------------------------------- MODULE World --------------------------------
(* The state of a channel and what publishing and reading do to it, as pure    *)
(* operators.  Everybody sees all that is published; a party keeps the sponge  *)
(* of each message it made or accepted, with the signing key or subscriber key *)
(* the message established.  Party 1 owns the channel, the last party is an    *)
(* outsider who owns no listed secret.                                         *)
EXTENDS Wire, Json
CONSTANT PARTIES
Parties == 1..PARTIES
(* ---- names ---- *)
NoKey == [g |-> 0, n |-> 0, h |-> 0]
PairOf(p) == IF p \in 11..19 THEN [g |-> p - 10, n |-> 2] ELSE [g |-> p, n |-> 1]   \* everyone has a second pair, 10 + p
Off(name, at, d) == name \o "~" \o ToString(at) \o "~" \o ToString(d)   \* a name with one trit changed
(* secrets and their identifiers differ from each other in one or two trits only, at either end or in the middle *)
Place(i, n) == CASE i % 3 = 1 -> n - 1 - (i \div 3) [] i % 3 = 2 -> i \div 3 [] OTHER -> (n \div 2) + (i \div 3)
Group(i) == IF i < 90 THEN "" ELSE ToString(i \div 90)
PskName(i, w) == Off("psk" \o Group(i), Place(i % 90, 243), IF w = "right" THEN 1 ELSE 2)
PskId(i) == Off("pskid" \o Group(i), Place(i % 90, 81), IF i % 3 = 0 THEN 2 ELSE 1)
MsgName(i) == "msg" \o ToString(i)
KeyAtom(i) == Atom("session" \o ToString(i), 243)
Nonce(i) == Atom("nonce" \o ToString(i), 81)
(* small payloads of one size are equal: values of few trits coincide anyway *)
Payload(b, i, n) == IF n < 20 THEN Atom(b, 3 * n) ELSE Atom(b \o ToString(i), 3 * n)
HdrFor(kind, name) == [ver |-> 1, type |-> Str(TypeName(kind)), app |-> "app", id |-> name]
(* ---- the world: w.msgs[i] = [m (content with kind, hdr, name), segs, st, by, craft];     *)
(* w.know[p]: message -> [st, key, sub]; w.rings[p]: identifier -> "right"/"wrong" secret;  *)
(* w.used[key]: signatures made; w.terms: sponges seen, numbering them; w.hist: events     *)
World0 == [msgs |-> <<>>, know |-> [p \in Parties |-> <<>>], rings |-> <<>>, used |-> <<>>, terms |-> <<>>, hist |-> <<>>]
NewName(w) == MsgName(Len(w.msgs) + 1)
Env(w, kind, h) == [kind |-> kind, name |-> NewName(w), hdr |-> IF h THEN HdrFor(kind, NewName(w)) ELSE None]
Knows(w, p, i) == i \in DOMAIN w.know[p]
LearnIt(w, p, i, k) == [w EXCEPT !.know[p] = [x \in DOMAIN @ \cup {i} |-> IF x = i THEN k ELSE @[x]]]
TermNo(ts, st) == IF st = <<>> THEN 0 ELSE IF \E i \in 1..Len(ts) : ts[i] = st THEN CHOOSE i \in 1..Len(ts) : ts[i] = st ELSE Len(ts) + 1
AddTerm(w, st) == IF TermNo(w.terms, st) > Len(w.terms) THEN [w EXCEPT !.terms = Append(@, st)] ELSE w
(* the sponge a party uses for a link: the one it has for the message, or a new one *)
LinkFor(w, p, i) == [id |-> w.msgs[i].m.name, ref |-> IF Knows(w, p, i) THEN i ELSE 0, st |-> IF Knows(w, p, i) THEN w.know[p][i].st ELSE <<>>]
Lookup(w, p) == LET D == {w.msgs[i].m.name : i \in DOMAIN w.know[p]}
                IN [n \in D |-> LET i == CHOOSE i \in DOMAIN w.know[p] : w.msgs[i].m.name = n IN w.know[p][i]]
Used(w, k) == IF k \in DOMAIN w.used THEN w.used[k] ELSE 0
CanSign(w, k) == Used(w, k) < 2 ^ k.h
Spend(w, ks) == [w EXCEPT !.used = [k \in DOMAIN @ \cup ks |-> IF k \in ks THEN Used(w, k) + 1 ELSE @[k]]]
Show(m) == IF "link" \in DOMAIN m THEN [m EXCEPT !.link = [id |-> @.id, ref |-> @.ref]] ELSE m
RECURSIVE ShowCs(_)
ShowC(c) == IF c.c \in {"join", "joinst"} THEN [c |-> c.c] @@ [id |-> c.link.id, ref |-> c.link.ref] ELSE IF c.c = "fork" THEN [c |-> "fork", sub |-> ShowCs(c.sub)] ELSE c
ShowCs(cs) == [i \in 1..Len(cs) |-> ShowC(cs[i])]
AllCmds(m) == (IF m.hdr = None THEN <<>> ELSE Header(m.hdr)) \o Content(m)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SegWidths(segs) == [i \in 1..Len(segs) |-> SegWidth(segs[i])]
Establishes(m) == [key |-> IF m.kind \in {"announce", "change_key"} THEN m.mss ELSE NoKey, sub |-> IF m.kind = "subscribe" THEN m.sub ELSE None]
Signers(m) == IF m.kind = "change_key" THEN {m.signer, m.signer2} ELSE IF "signer" \in DOMAIN m THEN {m.signer} ELSE {}
SetUp(w, fs) == LET R(p) == [i \in {j \in DOMAIN fs[p] : fs[p][j] # "none"} |-> fs[p][i]] IN
   [w EXCEPT !.rings = [p \in Parties |-> R(p)],
             !.hist = Append(@, [op |-> "setup", rings |-> [p \in Parties |-> {<<PskId(i), PskName(i, fs[p][i])>> : i \in {j \in DOMAIN fs[p] : fs[p][j] # "none"}}]])]
(* p publishes m; craft: the message is put together by hand, not by the functions for its kind *)
Publish(w, p, m, craft) == LET s == TLCEval(Send(<<>>, m)) w1 == AddTerm(w, s.st) IN
   LearnIt(Spend([w1 EXCEPT !.msgs = Append(@, [m |-> m, segs |-> s.segs, st |-> s.st, by |-> p, craft |-> craft, forged |-> FALSE, aligned |-> TRUE]),
       !.hist = Append(@, [op |-> "publish", by |-> p, m |-> Show(m), craft |-> craft, cmds |-> ShowCs(AllCmds(m)), widths |-> SegWidths(s.segs),
                           st |-> TermNo(w.terms, s.st), lst |-> IF "link" \in DOMAIN m THEN TermNo(w.terms, m.link.st) ELSE 0])], Signers(m)),
     p, Len(w.msgs) + 1, [st |-> s.st] @@ Establishes(m))
(* p puts a message together from commands cs of its own, to be taken for m; aligned: its fields are as wide as those of m *)
Forge(w, p, m, cs) ==
   LET s == TLCEval(SendAll(SendInit(<<>>), cs)) h == TLCEval(Send(<<>>, m)) a == SegWidths(s.segs) b == SegWidths(h.segs)
       w1 == AddTerm(w, s.st)
   IN [w1 EXCEPT !.msgs = Append(@, [m |-> m, segs |-> s.segs, st |-> s.st, by |-> p, craft |-> TRUE, forged |-> TRUE, aligned |-> IsPrefix(b, a)]),
                 !.hist = Append(@, [op |-> "forge", by |-> p, m |-> Show(m), cmds |-> ShowCs(cs), widths |-> a, st |-> TermNo(w.terms, s.st), lst |-> 0])]
(* ---- reading ---- *)
Ctx(w, p, i) == LET m == w.msgs[i].m IN
   [hdr |-> m.hdr, lookup |-> Lookup(w, p),
    trust |-> IF m.kind \in {"signed", "skeyload"} THEN m.signer ELSE NoKey,
    psks |-> LET D == {PskId(j) : j \in DOMAIN w.rings[p]} IN [n \in D |-> LET j == CHOOSE j \in DOMAIN w.rings[p] : PskId(j) = n IN PskName(j, w.rings[p][j])],
    sks |-> [q \in {PairOf(p), PairOf(10 + p)} |-> q], sk |-> PairOf(p)]
(* what happens to a message before or while p reads it: nothing, a trit altered, cut short, *)
(* header of another version, read with another context, another key trusted, another secret key, recovery mode, *)
(* a field replaced by one of another message *)
NoTrick == [a |-> "none", seg |-> 0, at |-> 0, d |-> 0, other |-> 0, oseg |-> 0, key |-> NoKey]
SegsAfter(w, i, t) == LET s == w.msgs[i].segs IN
   CASE t.a \in {"alter", "recalter"} -> [s EXCEPT ![t.seg] = Alt(@, (3 * t.at) + t.d)] [] t.a \in {"cut", "cutrec"} -> SubSeq(s, 1, t.seg - 1)
     [] t.a = "version" -> <<Tryte(t.at)>> \o Tail(s)
     [] t.a = "splice" -> [s EXCEPT ![t.seg] = w.msgs[t.other].segs[t.oseg]] [] OTHER -> s
(* a key like k but for one trit is another key (no signing key belongs to it) *)
NearKey(k) == IF k = NoKey THEN k ELSE [k EXCEPT !.n = @ + 100000]
CtxAfter(w, p, i, t) == LET x == Ctx(w, p, i) IN
   CASE t.a = "app" -> [x EXCEPT !.hdr.app = Off(@, t.at, t.d)] [] t.a = "id" -> [x EXCEPT !.hdr.id = Off(@, t.at, t.d)]
     [] t.a = "trust" -> [x EXCEPT !.trust = t.key] [] t.a = "near" -> [x EXCEPT !.trust = NearKey(@), !.lookup = [q \in DOMAIN @ |-> [@[q] EXCEPT !.key = NearKey(@)]]] [] t.a = "sk" -> [x EXCEPT !.sk = PairOf(t.other)] [] OTHER -> x
Kind(w, i, t) == IF t.a \in {"recover", "recalter", "cutrec"} THEN "recover" ELSE w.msgs[i].m.kind
Result(w, p, i, t) == IF ~w.msgs[i].aligned THEN Fail(RecvInit(<<>>, <<>>), "unaligned") ELSE Recv(<<>>, Kind(w, i, t), SegsAfter(w, i, t), CtxAfter(w, p, i, t))
AuthKinds == {"announce", "change_key", "signed", "skeyload", "tagged", "subscribe", "unsubscribe"}
(* what the reader must see: "ok" with the sponge named st; "err"; "nokey" the key-not-found error; "notsigner": error or a key not the signer's; "any" *)
Expect(w, i, t, r) == IF Kind(w, i, t) = "recover" THEN (IF ~Ok(r) /\ t.a = "recover" /\ r.err = "LinkNotFound" THEN "err" ELSE IF Ok(r) /\ Last1(r).t = "msspk" THEN "ok" ELSE "notsigner")
                      ELSE IF Ok(r) THEN "ok" ELSE IF r.err = "KeyNotFound" THEN "nokey" ELSE IF r.err = "unaligned" \/ (r.err = "garbled" /\ w.msgs[i].m.kind \notin AuthKinds) THEN "any"
                      ELSE "err"
Garbles(r) == \E j \in 1..Len(r.out) : r.out[j].t \in {"garb", "alt"}
Read(w, p, i, t) ==
  LET r == TLCEval(Result(w, p, i, t)) x == Expect(w, i, t, r) m == w.msgs[i].m
      k == [st |-> r.st, key |-> IF m.kind \in {"announce", "change_key"} /\ Ok(r) THEN m.mss ELSE NoKey, sub |-> IF m.kind = "subscribe" /\ Ok(r) THEN m.sub ELSE None]
      keep == x = "ok" /\ t.a = "none" /\ ~Knows(w, p, i)
      w1 == IF x = "ok" THEN AddTerm(w, r.st) ELSE w
      w2 == [w1 EXCEPT !.hist = Append(@, [op |-> "read", p |-> p, i |-> i, t |-> t, kind |-> Kind(w, i, t), expect |-> x, st |-> IF x = "ok" THEN TermNo(w.terms, r.st) ELSE 0,
                          rest |-> IF x = "ok" THEN Sum(SegWidths(r.in)) ELSE 0, keep |-> keep, trust |-> CtxAfter(w, p, i, t).trust, sk |-> CtxAfter(w, p, i, t).sk, plain |-> Ok(r) /\ ~Garbles(r) /\ t.a # "splice"])]
  IN IF keep THEN LearnIt(w2, p, i, k) ELSE w2
(* ---- sweeps: one event stands for many readings, none of which is kept.  per: each field's verdict when altered: *)
(* "err", "differs": if accepted then with another sponge than the author's; "same": as the author's; "any" *)
Verdict(w, i, t, r) == LET x == Expect(w, i, t, r) IN IF x = "ok" THEN (IF Kind(w, i, t) = "recover" THEN "ok" ELSE IF r.st = w.msgs[i].st THEN "same" ELSE "differs") ELSE IF x = "nokey" THEN "err" ELSE x
Sweep(w, p, i, a, every) == LET t(s) == [NoTrick EXCEPT !.a = a, !.seg = s, !.d = 1] s0 == [NoTrick EXCEPT !.a = a] IN
  [w EXCEPT !.hist = Append(@, [op |-> "sweep", p |-> p, i |-> i, t |-> s0, kind |-> Kind(w, i, s0), trust |-> Ctx(w, p, i).trust, sk |-> Ctx(w, p, i).sk, every |-> every,
     per |-> IF a \in {"app", "id", "near"} THEN LET u == [s0 EXCEPT !.d = 1] IN <<Verdict(w, i, u, Result(w, p, i, u))>>
             ELSE [s \in 1..Len(w.msgs[i].segs) |-> Verdict(w, i, t(s), Result(w, p, i, t(s)))]])]
Do(w, s) == CASE s.s = "read" -> Read(w, s.p, s.i, NoTrick) [] s.s = "trick" -> Read(w, s.p, s.i, s.t) [] s.s = "sweep" -> Sweep(w, s.p, s.i, s.a, s.every)
(* ---- what must hold of every world ---- *)
Listed(w, p, i) == LET m == w.msgs[i].m IN \/ {PairOf(p), PairOf(10 + p)} \cap ToSet(m.pairs) # {}
                  \/ \E j \in DOMAIN w.rings[p] : w.rings[p][j] = "right" /\ \E e \in ToSet(m.psks) : e.id = PskId(j)
(* messages whose authors' sponges i was made from *)
RECURSIVE Ancestors(_, _)
Ancestors(w, i) == IF "link" \in DOMAIN w.msgs[i].m /\ w.msgs[i].m.link.ref # 0 /\ w.msgs[i].m.link.st = w.msgs[w.msgs[i].m.link.ref].st THEN {w.msgs[i].m.link.ref} \cup Ancestors(w, w.msgs[i].m.link.ref) ELSE {}
KeyloadsUnder(w, i) == {j \in Ancestors(w, i) \cup {i} : w.msgs[j].m.kind \in {"keyload", "skeyload"}}
(* whoever accepted an authenticated message has its author's sponge, and a forgery is accepted only where it comes to the same sponge *)
AgreementIn(w) == \A p \in Parties : \A i \in DOMAIN w.know[p] : w.msgs[i].m.kind \in AuthKinds \ {"skeyload"} => w.know[p][i].st = IF w.msgs[i].forged THEN Send(<<>>, w.msgs[i].m).st ELSE w.msgs[i].st
(* the author's sponge of anything below a keyload is had by its listed recipients and authors only *)
(* (two keyloads of one author with the same nonce, key and number of entries are one) *)
SecrecyIn(w) == \A p \in Parties : \A i \in DOMAIN w.know[p] : w.know[p][i].st = w.msgs[i].st => \A j \in KeyloadsUnder(w, i) :
   w.msgs[i].by = p \/ \E q \in 1..Len(w.msgs) : w.msgs[q].st = w.msgs[j].st /\ (w.msgs[q].by = p \/ Listed(w, p, q))
KeysEndorsedIn(w) == \A p \in Parties : \A i \in DOMAIN w.know[p] : w.know[p][i].key # NoKey /\ w.msgs[i].by # p =>
   LET m == w.msgs[i].m IN m.signer = m.mss /\ (m.kind = "change_key" => \E j \in DOMAIN w.know[p] : w.msgs[j].m.name = m.link.id /\ w.know[p][j].key = m.signer2)
UnsubscribedByIn(w) == \A p \in Parties : \A i \in DOMAIN w.know[p] : w.msgs[i].m.kind = "unsubscribe" /\ w.msgs[i].by # p =>
   \A j \in 1..Len(w.msgs) : w.msgs[j].m.name = w.msgs[i].m.link.id /\ w.msgs[j].m.kind = "subscribe" => w.msgs[i].by = w.msgs[j].by \/ Knows(w, w.msgs[i].by, j)
OneUseIn(w) == \A k \in DOMAIN w.used : w.used[k] <= 2 ^ k.h
=============================================================================
