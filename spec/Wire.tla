-------------------------------- MODULE Wire --------------------------------
(* Messages as PB3 command sequences over a symbolic sponge.                   *)
(*                                                                             *)
(* A sponge is the sequence of events that happened to it: data that went in   *)
(* (absorbed, or encrypted, which leaves the same trace), squeezes, commits.   *)
(* Output is a term naming the sponge it came from.  A message is a sequence   *)
(* of commands; Send runs them and yields the segments put on the wire and the *)
(* sponge afterwards, Recv reads segments and yields the values or an error.   *)
(* Forks work on a copy of the sponge; joins absorb 243 trits squeezed from    *)
(* the linked message's sponge.  Links, tags and signatures are not absorbed.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
(* ---- data terms: t is the sort, n a width in trits or a number ---- *)
Atom(a, n) == [t |-> "atom", a |-> a, n |-> n]              \* named trits
SizeT(n) == [t |-> "size", n |-> n]                         \* codeword of a size
Tryte(v) == [t |-> "tryte", n |-> v]
IntT(k, v) == [t |-> "int", n |-> k, v |-> v]                \* v in k trits
Str(s) == [t |-> "str", a |-> s]                            \* characters as trytes
MssPk(k) == [t |-> "msspk", key |-> k]
NtruPk(p) == [t |-> "ntrupk", pair |-> p]
PkId(p) == [t |-> "pkid", pair |-> p]
Derived(g, n) == [t |-> "prng", g |-> g, n |-> n]           \* 243 trits of generator g for nonce n
Sq(st, n) == [t |-> "sq", st |-> st, n |-> n]               \* squeezed
Cip(st, x) == [t |-> "cip", st |-> st, x |-> x]             \* masked
Cap(p, x, g, n, st) == [t |-> "cap", pair |-> p, x |-> x, g |-> g, n |-> n, st |-> st]
Sig(k, kn, h) == [t |-> "sig", key |-> k, kn |-> kn, x |-> h]
Alt(x, d) == [t |-> "alt", x |-> x, d |-> d]                \* some trit of x changed
Garb(x, st) == [t |-> "garb", x |-> x, st |-> st]           \* x unmasked at the wrong place
None == [t |-> "none"]
RECURSIVE SizeDigits(_)
SizeDigits(n) == IF n = 0 THEN 0 ELSE 1 + SizeDigits((n + 13) \div 27)
StrLen(s) == Len(s)
MssSigWidth(k) == 18 + (162 * 81) + (243 * k.h)
Width(x) == CASE x.t = "atom" -> x.n [] x.t = "size" -> 3 + (3 * SizeDigits(x.n)) [] x.t = "tryte" -> 3 [] x.t = "int" -> x.n [] x.t = "str" -> 3 * StrLen(x.a)
              [] x.t = "msspk" -> 243 [] x.t \in {"ntrupk", "badpk"} -> 9216 [] x.t = "pkid" -> 81 [] x.t = "prng" -> 243 [] x.t = "sq" -> x.n
              [] x.t = "cap" -> 9216 [] x.t = "sig" -> MssSigWidth(x.key)
RECURSIVE SegWidth(_)
SegWidth(x) == IF x.t \in {"cip", "alt", "garb"} THEN SegWidth(x.x) ELSE Width(x)
RATE == 486
(* ---- sponge ---- *)
In(st, x) == IF x.t = "atom" /\ x.n = 0 THEN st ELSE Append(st, [e |-> "in", x |-> x, n |-> 0])
Squeezed(st, n) == Append(st, [e |-> "sq", x |-> None, n |-> n])
(* trits in the outer part since it was last permuted; with none a commit does nothing *)
Pos(st) == FoldLeft(LAMBDA p, v : IF v.e = "commit" THEN 0 ELSE (p + (IF v.e = "sq" THEN v.n ELSE SegWidth(v.x))) % RATE, 0, st)
(* before the first permutation the outer part is zero, so zeros that end the block leave no trace *)
Zeros(v) == v.e = "sq" \/ (v.e = "in" /\ (v.x \in {Tryte(0), SizeT(0)} \/ (v.x.t = "sq" /\ v.x.st = <<>>)))
First(st) == (\A i \in 1..Len(st) : st[i].e # "commit") /\ FoldLeft(LAMBDA p, v : p + (IF v.e = "sq" THEN v.n ELSE SegWidth(v.x)), 0, st) < RATE
RECURSIVE Trim(_)
Trim(st) == IF st # <<>> /\ Zeros(st[Len(st)]) THEN Trim(SubSeq(st, 1, Len(st) - 1)) ELSE st
Commit(st) == IF Pos(st) = 0 THEN st ELSE Append(IF First(st) THEN Trim(st) ELSE st, [e |-> "commit", x |-> None, n |-> 0])
Join(st, link) == In(st, Sq(link, 243))
HashSize == 234
MacSize == 243
(* ---- commands ---- *)
C(c, f) == [c |-> c] @@ f
Absorb(x) == <<C("absorb", [x |-> x])>>
External(x) == <<C("external", [x |-> x])>>
Mask(x) == <<C("mask", [x |-> x])>>
JoinLink(l) == <<C("join", [link |-> l])>>
CommitC == <<C("commit", <<>>)>>
Mac == <<C("mac", <<>>)>>
HashC == <<C("hash", <<>>)>>
SigC(k, kn) == <<C("sig", [key |-> k, kn |-> kn])>>
Kem(p, x, g, n) == <<C("kem", [pair |-> p, x |-> x, g |-> g, n |-> n])>>
Fork(cs) == <<C("fork", [sub |-> cs])>>
(* not used by any message; forgers use them: trits written only, another sponge joined without naming it, trits squeezed and dropped *)
Write(x) == <<C("write", [x |-> x])>>
JoinOnly(l) == <<C("joinst", [link |-> l])>>
Drop(n) == <<C("squeeze", [n |-> n])>>
Trytes(x) == Absorb(SizeT(Width(x) \div 3)) \o Absorb(x)
MaskTrytes(x) == Mask(SizeT(Width(x) \div 3)) \o Mask(x)
MssigC(k, kn) == HashC \o SigC(k, kn)
TypeName(kind) == CASE kind = "announce" -> "MAM9CHANNEL9ANNOUNCE" [] kind = "change_key" -> "MAM9CHANNEL9CHANGEKEY" [] kind \in {"keyload", "skeyload"} -> "MAM9KEYLOAD"
  [] kind = "signed" -> "MAM9SIGNEDPACKET" [] kind = "tagged" -> "MAM9TAGGEDPACKET" [] kind = "subscribe" -> "MAM9CHANNEL9SUBSCRIBE" [] kind = "unsubscribe" -> "MAM9CHANNEL9UNSUBSCRIBE"
Header(h) == Absorb(Tryte(h.ver)) \o Trytes(h.type) \o External(Atom(h.app, 243)) \o External(Atom(h.id, 81))
(* content m of each kind; m.link = [id, st]: name and sponge of the linked message *)
Entries(es, F(_)) == FoldLeft(LAMBDA acc, e : acc \o Fork(F(e)), <<>>, es)
PskEntry(m, e) == Absorb(Atom(e.id, 81)) \o External(Atom(e.psk, 243)) \o CommitC \o Mask(m.key)
NtruEntry(m, p) == Absorb(PkId(p)) \o Kem(p, m.key, m.g, m.nonce)
KeyloadC(m) == JoinLink(m.link) \o Absorb(m.nonce)
  \o Absorb(SizeT(Len(m.psks))) \o Entries(m.psks, LAMBDA e : PskEntry(m, e))
  \o Absorb(SizeT(Len(m.pairs))) \o Entries(m.pairs, LAMBDA p : NtruEntry(m, p))
  \o External(m.key) \o CommitC
Content(m) ==
  CASE m.kind = "header" -> <<>>
    [] m.kind = "announce" -> Absorb(MssPk(m.mss)) \o (IF m.ntru = None THEN Absorb(Tryte(0)) ELSE IF m.ntru.t = "badtag" THEN Absorb(Tryte(m.ntru.n)) ELSE Absorb(Tryte(1)) \o Absorb(m.ntru)) \o MssigC(m.signer, m.kn)
    [] m.kind = "change_key" -> JoinLink(m.link) \o Absorb(MssPk(m.mss)) \o HashC \o SigC(m.signer, m.kn) \o SigC(m.signer2, m.kn2)
    [] m.kind = "signed" -> JoinLink(m.link) \o Trytes(m.pub) \o MaskTrytes(m.masked) \o MssigC(m.signer, m.kn)
    [] m.kind = "tagged" -> JoinLink(m.link) \o Trytes(m.pub) \o MaskTrytes(m.masked) \o Mac
    [] m.kind = "keyload" -> KeyloadC(m)
    [] m.kind = "skeyload" -> KeyloadC(m) \o MssigC(m.signer, m.kn)
    [] m.kind = "subscribe" -> JoinLink(m.link) \o Kem(m.owner, Derived(m.g, m.nonce), m.g, m.nonce) \o CommitC \o Mask(m.sub) \o Mac
    [] m.kind = "unsubscribe" -> JoinLink(m.link) \o Mac
(* ---- sender ---- *)
SendInit(st) == [st |-> st, segs |-> <<>>, hash |-> None]
RECURSIVE SendAll(_, _)
SendStep(r, c) ==
  CASE c.c = "absorb" -> [r EXCEPT !.segs = Append(@, c.x), !.st = In(@, c.x)]
    [] c.c = "external" -> [r EXCEPT !.st = In(@, c.x)]
    [] c.c = "mask" -> [r EXCEPT !.segs = Append(@, Cip(r.st, c.x)), !.st = In(@, c.x)]
    [] c.c = "join" -> [r EXCEPT !.segs = Append(@, Atom(c.link.id, 81)), !.st = Join(@, c.link.st)]
    [] c.c = "commit" -> [r EXCEPT !.st = Commit(@)]
    [] c.c = "write" -> [r EXCEPT !.segs = Append(@, c.x)]
    [] c.c = "joinst" -> [r EXCEPT !.st = Join(@, c.link.st)]
    [] c.c = "squeeze" -> [r EXCEPT !.st = Squeezed(@, c.n)]
    [] c.c = "mac" -> LET s == Commit(r.st) IN [r EXCEPT !.segs = Append(@, Sq(s, MacSize)), !.st = Squeezed(s, MacSize)]
    [] c.c = "hash" -> LET s == Commit(r.st) IN [r EXCEPT !.hash = Sq(s, HashSize), !.st = Squeezed(s, HashSize)]
    [] c.c = "sig" -> [r EXCEPT !.segs = Append(@, Sig(c.key, c.kn, r.hash))]
    [] c.c = "kem" -> LET y == Cap(c.pair, c.x, c.g, c.n, r.st) IN [r EXCEPT !.segs = Append(@, y), !.st = In(@, y)]
    [] c.c = "fork" -> LET f == SendAll(SendInit(r.st), c.sub) IN [r EXCEPT !.segs = @ \o f.segs]
SendAll(r, cs) == FoldLeft(LAMBDA acc, c : SendStep(acc, c), r, cs)
Send(st, m) == SendAll(SendInit(st), (IF m.hdr = None THEN <<>> ELSE Header(m.hdr)) \o Content(m))
(* ---- receiver: r = [st, in, err, hash, out]; x is what it knows ---- *)
RecvInit(st, segs) == [st |-> st, in |-> segs, err |-> "", hash |-> None, out |-> <<>>, link |-> None, left |-> 0]
Fail(r, e) == [r EXCEPT !.err = e]
Ok(r) == r.err = ""
RAbsorb(r) == IF ~Ok(r) THEN r ELSE IF r.in = <<>> THEN Fail(r, "Eof")
              ELSE [r EXCEPT !.in = Tail(@), !.st = In(@, Head(r.in)), !.out = Append(@, Head(r.in))]
Unmask(y, st) == CASE y.t = "cip" /\ y.st = st -> y.x [] y.t = "alt" /\ y.x.t = "cip" /\ y.x.st = st -> Alt(y.x.x, y.d) [] OTHER -> Garb(y, st)
RMask(r) == IF ~Ok(r) THEN r ELSE IF r.in = <<>> THEN Fail(r, "Eof")
            ELSE LET x == Unmask(Head(r.in), r.st) IN [r EXCEPT !.in = Tail(@), !.st = In(@, x), !.out = Append(@, x)]
RExternal(r, x) == IF ~Ok(r) THEN r ELSE [r EXCEPT !.st = In(@, x)]
RCommit(r) == IF ~Ok(r) THEN r ELSE [r EXCEPT !.st = Commit(@)]
Last1(r) == r.out[Len(r.out)]
RCheck(r, P, e) == IF ~Ok(r) THEN r ELSE IF P THEN r ELSE Fail(r, e)
(* a size that is not what was sent makes everything after it unreadable *)
RSize(r) == LET q == RAbsorb(r) IN RCheck(q, ~Ok(q) \/ Last1(q).t = "size", "garbled")
RMSize(r) == LET q == RMask(r) IN RCheck(q, ~Ok(q) \/ Last1(q).t = "size", "garbled")
RTrytes(r) == RAbsorb(RSize(r))
RMTrytes(r) == RMask(RMSize(r))
(* lookup: a function from link names to known sponges *)
RJoin(r, lookup) == IF ~Ok(r) THEN r ELSE IF r.in = <<>> THEN Fail(r, "Eof")
  ELSE LET l == Head(r.in) IN IF l.t # "atom" \/ l.a \notin DOMAIN lookup THEN Fail(r, "LinkNotFound")
       ELSE [r EXCEPT !.in = Tail(@), !.st = Join(@, lookup[l.a].st), !.link = l]
RMac(r) == IF ~Ok(r) THEN r ELSE IF r.in = <<>> THEN Fail(r, "Eof") ELSE LET s == Commit(r.st) IN
  IF Head(r.in) # Sq(s, MacSize) THEN Fail(r, "MacVerifyFailed") ELSE [r EXCEPT !.in = Tail(@), !.st = Squeezed(s, MacSize)]
RHash(r) == IF ~Ok(r) THEN r ELSE LET s == Commit(r.st) IN [r EXCEPT !.hash = Sq(s, HashSize), !.st = Squeezed(s, HashSize)]
RSig(r, k) == IF ~Ok(r) THEN r ELSE IF r.in = <<>> THEN Fail(r, "Eof") ELSE LET s == Head(r.in) IN
  IF s.t = "sig" /\ s.x = r.hash /\ s.key = k THEN [r EXCEPT !.in = Tail(@)] ELSE Fail(r, "MssVerifyFailed")
(* recovery gives the signer's key for an intact signature, otherwise some key of nobody or an error *)
RRecover(r) == IF ~Ok(r) THEN r ELSE IF r.in = <<>> THEN Fail(r, "Eof") ELSE LET s == Head(r.in) IN
  [r EXCEPT !.in = Tail(@), !.out = Append(@, IF s.t = "sig" /\ s.x = r.hash THEN MssPk(s.key) ELSE Garb(s, r.st))]
RKem(r, p) == IF ~Ok(r) THEN r ELSE IF r.in = <<>> THEN Fail(r, "Eof") ELSE LET y == Head(r.in) IN
  IF y.t = "cap" /\ y.pair = p /\ y.st = r.st THEN [r EXCEPT !.in = Tail(@), !.st = In(@, y), !.out = Append(@, y.x)] ELSE Fail(r, "NtruDecrFailed")
RHeader(r, h) == LET a == RAbsorb(r) b == RCheck(a, ~Ok(a) \/ Last1(a) = Tryte(1), "VersionUnsupported")
  IN RExternal(RExternal(RTrytes(b), Atom(h.app, 243)), Atom(h.id, 81))
(* entries: the first of the receiver's own is opened, all others are skipped, whatever is in them *)
REntries(r, n, Own(_), Open(_)) ==
  LET F(acc, i) == IF ~Ok(acc.r) THEN acc ELSE
        IF Len(acc.r.in) < 2 THEN [acc EXCEPT !.r = Fail(@, "Eof")]
        ELSE LET id == acc.r.in[1] IN
             IF acc.key = None /\ Own(id)
             THEN LET f == Open([acc.r EXCEPT !.out = <<>>]) IN [r |-> [acc.r EXCEPT !.in = f.in, !.err = f.err], key |-> IF Ok(f) THEN Last1(f) ELSE None]
             ELSE [acc EXCEPT !.r.in = SubSeq(@, 3, Len(@))]
  IN FoldLeft(F, r, [i \in 1..n |-> i])
RKeyload(r, x) ==
  LET a == RSize(RAbsorb(RJoin(r, x.lookup)))
      np == IF Ok(a) THEN Last1(a).n ELSE 0
      b == REntries([r |-> a, key |-> None], np, LAMBDA id : id.t = "atom" /\ id.a \in DOMAIN x.psks,
             LAMBDA q : RMask(RCommit(RExternal(RAbsorb(q), Atom(x.psks[q.in[1].a], 243)))))
      c == RSize(b.r)
      nn == IF Ok(c) THEN Last1(c).n ELSE 0
      d == REntries([b EXCEPT !.r = c], nn, LAMBDA id : id.t = "pkid" /\ id.pair \in DOMAIN x.sks, LAMBDA q : RKem(RAbsorb(q), x.sks[q.in[1].pair]))
      e == IF Ok(d.r) /\ d.key = None THEN Fail(d.r, "KeyNotFound") ELSE d.r
  IN RCommit(RExternal(e, d.key))
(* Recv: x = [hdr, lookup, trust (key for signed messages), psks, sks, sk] *)
Recv(st, kind, segs, x) ==
  LET r0 == RecvInit(st, segs)
      r == IF x.hdr = None THEN r0 ELSE RHeader(r0, x.hdr)
  IN CASE kind = "header" -> r
       [] kind = "announce" ->
          LET a == RAbsorb(r) b == RAbsorb(a) t == IF Ok(b) THEN Last1(b) ELSE None
              c == IF ~Ok(b) THEN b ELSE IF t = Tryte(0) THEN b ELSE IF t = Tryte(1) THEN LET n == RAbsorb(b) IN RCheck(n, ~Ok(n) \/ Last1(n).t = "ntrupk", "garbled") ELSE Fail(b, "BadOneOf")
              k == IF Ok(a) /\ Last1(a).t = "msspk" THEN Last1(a).key ELSE [g |-> 0, n |-> 0, h |-> 0]
          IN RSig(RHash(c), k)
       [] kind = "change_key" ->
          LET j == RJoin(r, x.lookup) a == RAbsorb(j)
              k == IF Ok(a) /\ Last1(a).t = "msspk" THEN Last1(a).key ELSE [g |-> 0, n |-> 0, h |-> 0]
              k2 == IF Ok(j) THEN x.lookup[j.link.a].key ELSE k
          IN RSig(RSig(RHash(a), k), k2)
       [] kind = "signed" -> RSig(RHash(RMTrytes(RTrytes(RJoin(r, x.lookup)))), x.trust)
       [] kind = "recover" -> RRecover(RHash(RMTrytes(RTrytes(RJoin(r, x.lookup)))))
       [] kind = "tagged" -> RMac(RMTrytes(RTrytes(RJoin(r, x.lookup))))
       [] kind = "keyload" -> RKeyload(r, x)
       [] kind = "skeyload" -> RSig(RHash(RKeyload(r, x)), x.trust)
       [] kind = "subscribe" -> LET a == RMask(RCommit(RKem(RJoin(r, x.lookup), x.sk))) IN RMac(RCheck(a, ~Ok(a) \/ Last1(a).t = "ntrupk", "garbled"))
       [] kind = "unsubscribe" -> RMac(RJoin(r, x.lookup))
=============================================================================
