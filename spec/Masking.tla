------------------------------- MODULE Masking ------------------------------
(* What hides masked content.  A masked field is added to trits the sponge     *)
(* squeezes, and those are a function of the blocks permuted before them: the  *)
(* history of a trit.  Fields are cut into pieces where a block ends.  Every   *)
(* piece of masked content of a complete message must have a history with      *)
(* enough of the secret it is meant for, and no two messages that differ in    *)
(* application, identifier, linked state or secret may share a history.        *)
EXTENDS Scripts
(* ---- the blocks of a sponge ---- *)
B0 == [done |-> <<>>, cur |-> <<>>, p |-> 0]
RECURSIVE Put(_, _, _, _)
Put(b, y, from, n) == IF n = 0 THEN b ELSE
   LET k == IF n < RATE - b.p THEN n ELSE RATE - b.p cur == Append(b.cur, [x |-> y, from |-> from, n |-> k])
   IN Put(IF b.p + k = RATE THEN [done |-> Append(b.done, cur), cur |-> <<>>, p |-> 0] ELSE [b EXCEPT !.cur = cur, !.p = @ + k], y, from + k, n - k)
Blocks(st) == FoldLeft(LAMBDA b, v : IF v.e = "commit" THEN (IF b.p = 0 THEN b ELSE [done |-> Append(b.done, b.cur), cur |-> <<>>, p |-> 0])
                                     ELSE IF v.e = "sq" THEN Put(b, None, 0, v.n) ELSE Put(b, v.x, 0, SegWidth(v.x)), B0, st)
(* pieces of a field x masked on sponge st *)
RECURSIVE Cut(_, _, _, _)
Cut(b, y, from, n) == IF n = 0 THEN <<>> ELSE LET k == IF n < RATE - b.p THEN n ELSE RATE - b.p IN <<[from |-> from, to |-> from + k, hist |-> b.done]>> \o Cut(Put(b, y, from, k), y, from + k, n - k)
Pieces(c) == Cut(Blocks(c.st), c.x, 0, SegWidth(c.x))
Flat(hist) == FoldLeft(LAMBDA a, b : a \o b, <<>>, hist)
Amount(hist, P(_)) == FoldLeft(LAMBDA a, e : a + (IF P(e.x) THEN e.n ELSE 0), 0, Flat(hist))
Has(hist, y) == Amount(hist, LAMBDA z : z = y) = SegWidth(y)
(* ---- pairs of messages ---- *)
Vary(kind) == {"app", "app1", "app2", "id", "id1", "id2", "state", "next", "many"} \cup (IF kind \in {"keyload", "keyloadp", "skeyload"} THEN {"psk", "psk1", "psk2", "nonce"} ELSE IF kind = "subscribe" THEN {"nonce", "owner"} ELSE {})
MaskSizes == IF DEEP THEN 0..170 \cup {200, 243, 324, 365} ELSE {0, 1, 13, 14, 27, 40, 80, 81, 82, 100, 108, 115, 116, 117, 161, 162, 163, 200, 243, 365}
MaskX == {s \in [kind : {"signed", "tagged", "keyload", "keyloadp", "skeyload", "subscribe"}, a : MaskSizes, b : {1, 2, 3, 9, 27, 30, 81, 162, 170, 400, 1000, 2500}, vary : {"app", "app1", "app2", "id", "id1", "id2", "state", "next", "psk", "psk1", "psk2", "nonce", "owner", "many"}] :
            s.vary \in Vary(s.kind) /\ (s.vary \in {"app1", "app2", "id1", "id2"} => s.a \in {0, 14, 117} /\ s.b = 30) /\ (s.vary = "many" => s.b <= 81 /\ (s.b = 27 => s.a = 0)) /\ (s.b < 30 => s.vary = "many" /\ s.a \in {0, 14}) /\ (s.kind \in {"signed", "tagged"} \/ (s.a = 0 /\ s.b = 30)) /\ (s.kind = "signed" => s.a \in {0, 14, 81, 117, 162} \/ DEEP)
            /\ (s.b > 400 => s.a \in {0, 27, 100} /\ s.vary \in {"id", "next"})}
Other(v, m) == LET l == [LinkFor(v, IF m.link.ref = 2 THEN 2 ELSE 1, IF m.link.ref = 2 THEN 1 ELSE 2) EXCEPT !.id = m.link.id] IN
  CASE x.vary = "app1" -> [m EXCEPT !.hdr.app = Off(@, 0, 1)] [] x.vary = "app2" -> [m EXCEPT !.hdr.app = Off(@, 242, 2)]
    [] x.vary = "id1" -> [m EXCEPT !.hdr.id = Off(@, 0, 2), !.name = Off(@, 0, 2)] [] x.vary = "id2" -> [m EXCEPT !.hdr.id = Off(@, 80, 1), !.name = Off(@, 80, 1)]
    [] x.vary \in {"psk1", "psk2"} -> [m EXCEPT !.psks = [i \in DOMAIN @ |-> [@[i] EXCEPT !.psk = Off(@, IF x.vary = "psk1" THEN 0 ELSE 242, 1)]]]
    [] x.vary = "app" -> [m EXCEPT !.hdr.app = "app2"] [] x.vary = "id" -> [m EXCEPT !.hdr.id = "msg99", !.name = "msg99"] [] x.vary = "state" -> [m EXCEPT !.link = l]
    [] x.vary = "psk" -> [m EXCEPT !.psks = [i \in DOMAIN @ |-> [@[i] EXCEPT !.psk = Off("psk", 100 + i, 1)]]] [] x.vary = "nonce" -> [m EXCEPT !.nonce = Nonce(77)] [] x.vary = "owner" -> [m EXCEPT !.owner = PairOf(2)]
    [] x.vary = "next" -> LastOf(AnyMsg(AnyMsg(BaseW, x.kind, TRUE, x.a, x.b), x.kind, TRUE, x.a, x.b))
First2 == LastOf(AnyMsg(BaseW, x.kind, TRUE, x.a, x.b))
Author == IF x.kind = "subscribe" THEN 2 ELSE 1
Fields(v, i, j) == LET s == v.msgs[i].segs u == v.msgs[j].segs F(k) == LET p == Pieces(s[k]) q == Pieces(u[k]) IN
                      [n \in 1..Len(p) |-> [seg |-> k, from |-> p[n].from, to |-> p[n].to, xa |-> s[k].x, xb |-> u[k].x, ha |-> p[n].hist, hb |-> q[n].hist]]
                   IN FoldLeft(LAMBDA acc, k : IF s[k].t = "cip" THEN acc \o F(k) ELSE acc, <<>>, [k \in 1..Len(s) |-> k])
VARIABLE fields
(* many messages that differ in their identifier only, or in the application *)
NMany == IF x.kind \in {"tagged", "subscribe"} THEN 40 ELSE 20
ManyRun == FoldLeft(LAMBDA v, k : Publish(v, Author, IF k % 4 = 3 THEN [First2 EXCEPT !.hdr.app = "many" \o ToString(k)] ELSE [First2 EXCEPT !.hdr.id = "many" \o ToString(k), !.name = "many" \o ToString(k)], FALSE), Publish(BaseW, Author, First2, FALSE), [k \in 1..NMany |-> k])
MaskRun == LET v == Publish(BaseW, Author, First2, FALSE) IN Publish(v, Author, Other(BaseW, First2), FALSE)
InitM == x \in TLCEval(MaskX) /\ w = World0 /\ fin = FALSE /\ fields = <<>>
ManyM == x.vary = "many" /\ ~fin /\ fin' = TRUE /\ UNCHANGED x /\ \E v \in {TLCEval(ManyRun)} :
            /\ fields' = FoldLeft(LAMBDA a, k : a \o Fields(v, 3, 3 + k), <<>>, [k \in 1..NMany |-> k])
            /\ w' = [v EXCEPT !.hist = Append(@, [op |-> "maskmany", from |-> 3, to |-> 3 + NMany, fields |-> LET f == Fields(v, 3, 4) IN [i \in 1..Len(f) |-> [seg |-> f[i].seg, from |-> f[i].from, to |-> f[i].to, xa |-> f[i].xa]]])]
NextM == \/ ManyM
         \/ x.vary # "many" /\ ~fin /\ fin' = TRUE /\ UNCHANGED x /\ \E v \in {TLCEval(MaskRun)} : \E f \in {TLCEval(Fields(v, 3, 4))} :
            /\ fields' = f
            /\ w' = [v EXCEPT !.hist = Append(@, [op |-> "keystream", a |-> 3, b |-> 4, fields |-> [i \in 1..Len(f) |-> [seg |-> f[i].seg, from |-> f[i].from, to |-> f[i].to, xa |-> f[i].xa, xb |-> f[i].xb]]])]
SpecM == InitM /\ [][NextM]_<<vars, fields>>
(* ---- what must hold ---- *)
LinkKey(y) == y.t = "sq"
Secret(y) == CASE x.kind \in {"signed", "tagged"} -> LinkKey(y) [] x.kind = "subscribe" -> y.t = "cap" [] OTHER -> y.t = "atom" /\ y.n = 243 /\ \E e \in ToSet(First2.psks) \cup ToSet(w.msgs[4].m.psks) : y.a = e.psk
(* at least 81 trits, that is 128 bits, of the secret and of the linked state are in every history, and the whole header *)
WholeKey(h) == \E y \in {v.x : v \in ToSet(Flat(h))} : Secret(y) /\ Has(h, y)
Keyed == (x.kind \notin {"signed", "tagged"} => \A i \in 1..Len(fields) : WholeKey(fields[i].ha) /\ WholeKey(fields[i].hb)) /\ \A i \in 1..Len(fields) : \A h \in {fields[i].ha, fields[i].hb} : Amount(h, Secret) >= 81 /\ Amount(h, LinkKey) >= 81
HeaderIn == \A i \in 1..Len(fields) : Has(fields[i].ha, Atom(w.msgs[3].m.hdr.app, 243)) /\ Has(fields[i].ha, Atom(w.msgs[3].m.hdr.id, 81))
Apart == \A i \in 1..Len(fields) : fields[i].ha # fields[i].hb
(* pieces of one message share a history only within one block *)
Mine == x.vary # "many" => \A i, j \in 1..Len(fields) : i < j /\ fields[i].ha = fields[j].ha => fields[i].to - fields[i].from + fields[j].to - fields[j].from <= RATE
Masks == fin => Len(fields) > 0
EmitM == fin => PrintT("@@" \o ToJson([t |-> "channel", mode |-> "mask", hist |-> w.hist]))
=============================================================================
