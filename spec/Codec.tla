------------------------------- MODULE Codec -------------------------------
(* Codes of iota_mam: balanced-ternary digits, tryte characters and size_t.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- balanced digits in odd base B: -(B-1)/2 .. (B-1)/2 *)
Half(B) == (B - 1) \div 2
BalDigit(v, B) == LET r == v % B IN IF r > Half(B) THEN r - B ELSE r
BalRest(v, B) == (v - BalDigit(v, B)) \div B
RECURSIVE Digits(_, _, _)
Digits(v, B, k) == IF k = 0 THEN <<>> ELSE <<BalDigit(v, B)>> \o Digits(BalRest(v, B), B, k - 1)
RECURSIVE Value(_, _)
Value(ds, B) == IF ds = <<>> THEN 0 ELSE Head(ds) + B * Value(Tail(ds), B)
RECURSIVE MinDigits(_, _)
MinDigits(v, B) == IF v = 0 THEN 0 ELSE 1 + MinDigits(BalRest(v, B), B)
Trit(d) == d % 3                               \* -1 is written as 2
Trits(v, k) == [i \in 1..k |-> Trit(Digits(v, 3, k)[i])]
ValueOfTrits(ts) == Value([i \in 1..Len(ts) |-> IF ts[i] = 2 THEN -1 ELSE ts[i]], 3)

(* ---- tryte alphabet *)
Alphabet == <<"9","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
TryteOf(k) == IF k > 13 THEN k - 27 ELSE k     \* value of the character at 0-based position k
CharOf(v) == Alphabet[(v % 27) + 1]

(* ---- size_t: a head tryte with the number of trytes, then the trytes, least significant first *)
MaxTrytes == 13
EncodeSize(v, B) == LET d == MinDigits(v, B) IN <<d>> \o Digits(v, B, d)
(* a codeword is accepted iff its head is in range, all its trytes are there and the top one is positive *)
SizeOk(head, tail) == /\ head \in 0..MaxTrytes
                      /\ Len(tail) >= head
                      /\ (head > 0 => tail[head] > 0)
SizeDigits(head, tail) == SubSeq(tail, 1, head)
============================================================================
