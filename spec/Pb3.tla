-------------------------------- MODULE Pb3 ---------------------------------
(* PB3 programs: any sequence of the commands messages are made of.  A writer  *)
(* wraps a program, a reader unwraps with the same program, or with one that   *)
(* differs in one place, or input that differs in one place.                   *)
EXTENDS Wire, Json
CONSTANTS LENGTH, MODE
VARIABLES prog, wr, dev, out, stage
vars == <<prog, wr, dev, out, stage>>
Pick(S) == RandomElement(S)
(* F of one random element of S, drawn once *)
With(S, F(_)) == CHOOSE v \in {F(q) : q \in {RandomElement(S)}} : TRUE
(* ---- states both sides know; the first is where every program starts: permuted, so that masking hides ---- *)
State(k) == <<[e |-> "in", x |-> Atom("state" \o ToString(k), 243), n |-> 0], [e |-> "commit", x |-> None, n |-> 0]>> \o
            (IF k = 3 THEN <<[e |-> "in", x |-> Atom("more", 100), n |-> 0]>> ELSE <<>>)
Base == State(0)
LinkOf(k) == [id |-> "link" \o ToString(k), st |-> State(k)]
KeyOf(k) == [g |-> 1, n |-> k, h |-> k % 2]
PairOf(k) == [g |-> 1, n |-> k]
(* ---- operations ---- *)
Nums == {0, 1, 13, 14, 364, 365, 9841, 9842, 265720, 265721, 2147483634}
Lens == {0, 1, 2, 3, 27, 81, 100, 162, 240, 242, 243, 244, 324, 483, 485, 486, 487, 729, 972, 1000}
Blks == {0, 1, 13, 14, 27, 80, 81, 82, 160, 161, 162, 163, 364, 365}
FieldTypes == {"tryte", "trint6", "trint9", "trint18", "size", "ntrytes", "trytes", "msspk", "ntrupk"}
Rnd(ty, i) == CASE ty = "tryte" -> Tryte(Pick(-13..13)) [] ty = "trint6" -> IntT(6, Pick(-364..364)) [] ty = "trint9" -> IntT(9, Pick(-9841..9841))
   [] ty = "trint18" -> IntT(18, Pick({Pick(-193710244..193710244), 193710244, -193710244, 0})) [] ty = "size" -> SizeT(Pick(Nums \cup {Pick(0..2147483634)}))
   [] ty = "ntrytes" -> Atom("data" \o ToString(i), Pick(Lens)) [] ty = "trytes" -> Atom("data" \o ToString(i), 3 * Pick(Blks \cup {Pick(0..170)})) [] ty = "msspk" -> MssPk(KeyOf(Pick(0..2))) [] ty = "ntrupk" -> NtruPk(PairOf(Pick(1..2)))
Kinds == {"field", "field2", "field3", "field4", "external", "commit", "joinlink", "join", "mac", "mssig", "kem", "squeeze", "fork"}
RECURSIVE RndOp(_, _, _)
RndOp(k, i, depth) ==
  CASE k \in {"field", "field2", "field3", "field4"} -> With(IF k = "field4" THEN {"ntrytes", "trytes"} ELSE FieldTypes \ (IF k = "field" THEN {} ELSE {"ntrupk", "msspk"}),
                                        LAMBDA ty : [op |-> "field", ty |-> ty, ctl |-> Pick({"absorb", "mask"}), x |-> Rnd(ty, i), via |-> Pick(0..2)])
    [] k = "external" -> [op |-> k, x |-> Atom("ext" \o ToString(i), Pick({27, 81, 243, 486}))]
    [] k = "commit" -> [op |-> k]
    [] k \in {"joinlink", "join"} -> [op |-> k, ref |-> Pick(1..3)]
    [] k = "mac" -> [op |-> k]
    [] k = "mssig" -> With(0..2, LAMBDA y : [op |-> k, key |-> KeyOf(y), kn |-> IF y = 1 THEN Pick(0..1) ELSE 0, by |-> Pick({"recover", "verify"})])
    [] k = "kem" -> [op |-> k, pair |-> PairOf(Pick(1..2)), x |-> Atom("kkey" \o ToString(i), 243), g |-> 1, n |-> Atom("nonce" \o ToString(i), 81)]
    [] k = "squeeze" -> [op |-> k, n |-> Pick({81, 243, 486, 500})]
    [] k = "fork" -> With(1..3, LAMBDA m : [op |-> k, sub |-> [j \in 1..m |-> With(IF depth = 0 THEN Kinds ELSE Kinds \ {"fork"}, LAMBDA kk : RndOp(kk, 20 * i + j, depth + 1))]])
(* the operation as commands of Wire; join commands also say which state, for the replay *)
RECURSIVE Cmds(_)
Cmds(o) ==
  CASE o.op = "field" -> (CASE o.ty = "trytes" -> IF o.ctl = "absorb" THEN Trytes(o.x) ELSE MaskTrytes(o.x) [] OTHER -> IF o.ctl = "absorb" THEN Absorb(o.x) ELSE Mask(o.x))
    [] o.op = "external" -> External(o.x) [] o.op = "commit" -> CommitC [] o.op = "mac" -> Mac [] o.op = "squeeze" -> Drop(o.n)
    [] o.op = "joinlink" -> <<C("join", [link |-> LinkOf(o.ref), ref |-> o.ref, id |-> LinkOf(o.ref).id])>>
    [] o.op = "join" -> <<C("joinst", [link |-> LinkOf(o.ref), ref |-> o.ref])>>
    [] o.op = "mssig" -> MssigC(o.key, o.kn) [] o.op = "kem" -> Kem(o.pair, o.x, o.g, o.n)
    [] o.op = "fork" -> Fork(FoldLeft(LAMBDA a, q : a \o Cmds(q), <<>>, o.sub))
RECURSIVE Strip(_)
Strip(cs) == [i \in 1..Len(cs) |-> LET c == cs[i] IN CASE c.c = "join" -> [c |-> "join", to |-> c.ref, id |-> c.id] [] c.c = "joinst" -> [c |-> "joinst", to |-> c.ref]
                                          [] c.c = "fork" -> [c |-> "fork", sub |-> Strip(c.sub)] [] OTHER -> c]
(* ---- the reader ---- *)
Lookup(swap) == [a \in {"link1", "link2", "link3"} |-> LET k == IF a = "link1" THEN 1 ELSE IF a = "link2" THEN 2 ELSE 3 IN [st |-> State(IF swap THEN 1 + (k % 3) ELSE k)]]
Sized(ty) == ty \in {"size", "trytes"}
RECURSIVE ROp(_, _)
ROp(r, o) ==
  CASE o.op = "field" -> (CASE o.ty = "size" -> IF o.ctl = "absorb" THEN RSize(r) ELSE RMSize(r)
                            [] o.ty = "trytes" -> IF o.ctl = "absorb" THEN RTrytes(r) ELSE RMTrytes(r)
                            [] OTHER -> LET q == IF o.ctl = "absorb" THEN RAbsorb(r) ELSE RMask(r) IN RCheck(q, ~Ok(q) \/ o.ty # "ntrupk" \/ Last1(q).t = "ntrupk", "garbled"))
    [] o.op = "nothing" -> r [] o.op = "external" -> RExternal(r, o.x) [] o.op = "commit" -> RCommit(r) [] o.op = "mac" -> RMac(r)
    [] o.op = "squeeze" -> IF Ok(r) THEN [r EXCEPT !.st = Squeezed(@, o.n)] ELSE r
    [] o.op = "joinlink" -> RJoin(r, Lookup("swap" \in DOMAIN o))
    [] o.op = "join" -> IF Ok(r) THEN [r EXCEPT !.st = Join(@, State(o.ref))] ELSE r
    [] o.op = "mssig" -> IF o.by = "verify" THEN RSig(RHash(r), o.key) ELSE RRecover(RHash(r))
    [] o.op = "kem" -> RKem(r, o.pair)
    [] o.op = "fork" -> LET f == FoldLeft(LAMBDA a, q : ROp(a, q), r, o.sub) IN [f EXCEPT !.st = r.st]
    [] o.op = "nofork" -> FoldLeft(LAMBDA a, q : ROp(a, q), r, o.sub)
(* what the reader does differently in place of operation i: a sequence of operations, or nothing possible *)
DevKinds == {"none", "ctl", "drop", "other", "commit", "alter", "cut", "nofork", "repeat"}
Deviate(o, k) ==
  CASE k = "ctl" -> IF o.op = "field" /\ Width(o.x) > 0 THEN <<[o EXCEPT !.ctl = IF @ = "mask" THEN "absorb" ELSE "mask"]>> ELSE <<>>
    [] k = "drop" -> IF o.op \in {"external", "commit", "join", "squeeze"} THEN <<[op |-> "nothing"]>> ELSE <<>>
    [] k = "other" -> (CASE o.op = "external" -> <<[o EXCEPT !.x = [@ EXCEPT !.a = "another"]]>> [] o.op = "join" -> <<[o EXCEPT !.ref = 1 + (@ % 3)]>>
                         [] o.op = "joinlink" -> <<o @@ [swap |-> TRUE]>> [] o.op = "kem" -> <<[o EXCEPT !.pair = PairOf(3 - @.n)]>> [] o.op = "mssig" -> <<[o EXCEPT !.key = KeyOf((@.n + 1) % 3), !.by = "verify"]>>
                         [] o.op = "squeeze" -> <<[o EXCEPT !.n = @ + 81]>> [] OTHER -> <<>>)
    [] k = "commit" -> <<[op |-> "commit"], o>>
    [] k = "repeat" -> IF o.op \in {"external", "join", "squeeze", "commit"} THEN <<o, o>> ELSE <<>>
    [] k = "nofork" -> IF o.op = "fork" THEN <<[o EXCEPT !.op = "nofork"]>> ELSE <<>>
    [] OTHER -> <<o>>
(* a run of the reader: per operation whether it went well, the values, whether the sponge is the writer's *)
SegsOf(ops) == SendAll(SendInit(Base), FoldLeft(LAMBDA a, q : a \o Cmds(q), <<>>, ops))
Run(p, w, d) ==
  LET ops == [i \in 1..Len(p) |-> IF i = d.i THEN Deviate(p[i], d.k) ELSE <<p[i]>>]
      \* first segment of operation i
      at == [i \in 0..Len(p) |-> Len(w[i].segs)]
      segs == w[Len(p)].segs
      in == IF d.k = "alter" THEN [segs EXCEPT ![at[d.i - 1] + d.s] = Alt(@, 1)] ELSE IF d.k = "cut" THEN SubSeq(segs, 1, at[d.i - 1] + d.s - 1) ELSE segs
      Step(acc, i) == LET r == FoldLeft(LAMBDA a, q : ROp(a, q), [acc.r EXCEPT !.out = <<>>], ops[i]) IN
                   [r |-> r, log |-> Append(acc.log, [err |-> r.err, out |-> r.out, same |-> r.st = w[i].st, after |-> Commit(r.st) = Commit(w[i].st), left |-> Len(r.in)])]
  IN FoldLeft(Step, [r |-> RecvInit(Base, in), log |-> <<>>], [i \in 1..Len(p) |-> i]).log
(* ---- behaviour ---- *)
W0 == [st |-> Base, segs |-> <<>>, hash |-> None]
Init ==prog = <<>> /\ wr = <<W0>> /\ dev = [i |-> 0, k |-> "none", s |-> 0] /\ out = <<>> /\ stage = 0
Add(o) == prog' = Append(prog, o) /\ wr' = Append(wr, SendAll(wr[Len(wr)], Cmds(o))) /\ UNCHANGED <<dev, out, stage>>
WOf == [i \in 0..Len(prog) |-> wr[i + 1]]
Ends == {[op |-> "mac"], [op |-> "mssig", key |-> KeyOf(1), kn |-> 0, by |-> "verify"], [op |-> "kem", pair |-> PairOf(1), x |-> Atom("kkey", 243), g |-> 1, n |-> Atom("nonce", 81)]}
Devs == {[i |-> 0, k |-> "none", s |-> 0]} \cup
        {d \in [i : 1..Len(prog), k : DevKinds \ {"none"}, s : 1..8] :
            /\ Deviate(prog[d.i], d.k) # <<>>
            /\ IF d.k \in {"alter", "cut"} THEN d.s <= Len(WOf[d.i].segs) - Len(WOf[d.i - 1].segs) /\ SegWidth(WOf[d.i].segs[Len(WOf[d.i - 1].segs) + d.s]) > 0 ELSE d.s = 1}
F(ty, ctl, x, via) == [op |-> "field", ty |-> ty, ctl |-> ctl, x |-> x, via |-> via]
SigOp(k, kn, by) == [op |-> "mssig", key |-> KeyOf(k), kn |-> kn, by |-> by]
Menu == << F("tryte", "absorb", Tryte(7), 0), F("size", "mask", SizeT(365), 1), F("ntrytes", "mask", Atom("mdata", 243), 0), F("trytes", "absorb", Atom("adata", 81), 2), F("trytes", "mask", Atom("none", 0), 0),
           F("msspk", "absorb", MssPk(KeyOf(1)), 0), F("ntrupk", "absorb", NtruPk(PairOf(1)), 0), F("ntrupk", "mask", NtruPk(PairOf(1)), 1), [op |-> "external", x |-> Atom("ext", 81)], [op |-> "commit"], [op |-> "joinlink", ref |-> 1], [op |-> "join", ref |-> 2], [op |-> "mac"], SigOp(0, 0, "recover"), SigOp(2, 0, "verify"),
           [op |-> "kem", pair |-> PairOf(2), x |-> Atom("kk", 243), g |-> 1, n |-> Atom("nn", 81)], [op |-> "squeeze", n |-> 243],
           [op |-> "fork", sub |-> <<F("ntrytes", "mask", Atom("fdata", 162), 2), [op |-> "mac"]>>], [op |-> "fork", sub |-> <<[op |-> "external", x |-> Atom("fext", 243)], [op |-> "kem", pair |-> PairOf(1), x |-> Atom("fk", 243), g |-> 1, n |-> Atom("fn", 81)]>>] >>
Rnds == MODE = "rnd"
Next == \/ stage = 0 /\ Len(prog) < LENGTH /\ (IF Rnds THEN \E k \in {Pick(Kinds)} : \E o \in {TLCEval(RndOp(k, Len(prog) + 1, 0))} : Add(o) ELSE \E m \in 1..Len(Menu) : Add(Menu[m]))
        \/ stage = 0 /\ Len(prog) = LENGTH /\ \E o \in IF Rnds THEN {Pick(Ends)} ELSE Ends : Add(o)
        \/ stage = 0 /\ Len(prog) > LENGTH /\ stage' = 1 /\ \E d \in IF Rnds THEN {Pick(TLCEval(Devs))} ELSE Devs : dev' = d /\ out' = TLCEval(Run(prog, WOf, d)) /\ UNCHANGED <<prog, wr>>
Spec == Init /\ [][Next]_vars
(* ---- what must hold ---- *)
Fields(o) == IF o.op \in {"field"} THEN (IF o.ty = "trytes" THEN <<SizeT(Width(o.x) \div 3), o.x>> ELSE <<o.x>>) ELSE IF o.op = "kem" THEN <<o.x>> ELSE IF o.op = "mssig" /\ o.by = "recover" THEN <<MssPk(o.key)>> ELSE <<>>
RECURSIVE AllFields(_)
AllFields(o) == IF o.op = "fork" THEN FoldLeft(LAMBDA a, q : a \o AllFields(q), <<>>, o.sub) ELSE Fields(o)
Done == stage = 1
Faithful == Done /\ dev.k = "none" => \A i \in 1..Len(prog) : out[i].err = "" /\ out[i].same /\ out[i].out = AllFields(prog[i]) /\ out[i].left = Len(wr[Len(wr)].segs) - Len(wr[i + 1].segs)
(* a reader whose sponge is not the writer's does not get past a MAC, a signature it verifies or a capsule *)
Guard(o) == o.op \in {"mac", "kem"} \/ (o.op = "mssig" /\ o.by = "verify")
Bound == Done => \A i \in 2..Len(prog) : Guard(prog[i]) /\ ~(IF prog[i].op = "kem" THEN out[i - 1].same ELSE out[i - 1].after) /\ out[i - 1].err = "" => out[i].err # ""
Caught == Done /\ dev.k \in {"alter", "cut"} => out[Len(prog)].err # "" \/ \A i \in dev.i..Len(prog) : out[i].same
Cut == Done /\ dev.k = "cut" => out[dev.i].err # ""
Lawful == Done => \A i \in 1..Len(prog) : (\A j \in i..Len(prog) : out[i].err # "" => out[j].err # "")
Emit == Done => PrintT("@@" \o ToJson([t |-> "pb3", prog |-> prog, cmds |-> [i \in 1..Len(prog) |-> Strip(Cmds(prog[i]))], nseg |-> [i \in 1..Len(prog) |-> Len(wr[i + 1].segs) - Len(wr[i].segs)], dev |-> dev,
          alt |-> IF dev.i = 0 THEN <<>> ELSE Deviate(prog[dev.i], dev.k), log |-> [i \in 1..Len(prog) |-> [err |-> out[i].err, same |-> out[i].same]]]))
=============================================================================
