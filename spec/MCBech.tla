-------------------------------- MODULE MCBech --------------------------------
(* Small-scope model of the layer below segwit addresses: a human-readable part of the
   caller's and five-bit values, both built up element by element, written as text and
   read back, also in capitals, under another name and with one character changed.    *)
EXTENDS Address, Emit
VARIABLES h, d
vars == <<h, d>>
HChars == {49, 97, 126} \cup (IF Deep THEN {33, 122} ELSE {})
Vals == {0, 1, 31} \cup (IF Deep THEN {16} ELSE {})
MaxH == 3
MaxD == IF Deep THEN 4 ELSE 3
Init == h \in {<<c>> : c \in HChars} /\ d = <<>>
Name == Len(h) < MaxH /\ d = <<>> /\ (\E c \in HChars : h' = Append(h, c)) /\ d' = d
More == Len(d) < MaxD /\ (\E v \in Vals : d' = Append(d, v)) /\ h' = h
\* a long stretch at once, up to and past the 90 characters
Jump == Len(h) + Len(d) \in {1, 2} /\ (\E k \in {77, 80, 81, 82, 83, 84} : d' = d \o Tup([i \in 1..k |-> (7 * i + Len(h)) % 32])) /\ h' = h
\* a segwit program
Prog == d = <<>> /\ Len(h) < 3 /\ (\E v \in {0, 1, 16, 17} : \E n \in {1, 2, 3, 20, 21, 32, 40, 41} :
           d' = <<v>> \o To5(Tup([i \in 1..n |-> (91 * i + v) % 256]))) /\ h' = h
Next == Name \/ More \/ Jump \/ Prog
Spec == Init /\ [][Next]_vars

Txt0 == BEncode(h, d)
Short == Len(Txt0) <= 90
RoundTrip == LET x == BDecode(Txt0) IN x.ok = Short /\ (Short => x.h = h /\ x.d = d)
AnyCase == BDecode(UpperT(Txt0)) = BDecode(Txt0)
Flip(i) == [Txt0 EXCEPT ![i] = IF @ = 113 THEN 112 ELSE 113]      \* q and p, both of the alphabet
OneWrong == Len(Txt0) < 20 => \A i \in Len(h) + 2..Len(Txt0) : Txt0[i] # Flip(i)[i] => ~BDecode(Flip(i)).ok
\* the segwit reader accepts only what this layer accepts, under the right name
Below == LET x == SegDec(h, Txt0) IN
  x.ok => BDecode(Txt0).ok /\ d # <<>> /\ x.v[1] = d[1] /\ SegEnc(h, x.v[1], Drop(x.v, 2)) = Good(Txt0)
Foreign == ~SegDec(Append(h, 98), Txt0).ok
Bx(f, r) == Act("bech32", [f |-> f] @@ r)
EmitAll == Session(
  (IF Short THEN <<Bx("b32_enc", [hrp |-> h, b |-> d])>> ELSE <<>>)
  \o <<Bx("b32_dec", [t |-> Txt0]), Bx("seg_dec", [hrp |-> h, t |-> Txt0])>>
  \o (IF (Len(h) + Len(d)) % 2 = 0 THEN <<Bx("b32_dec", [t |-> UpperT(Txt0)])>> ELSE <<Bx("b32_dec", [t |-> Flip(Len(h) + 2)])>>)
  \o (IF Len(d) > 3 /\ Len(d) < 70 THEN LET g == To8(Drop(d, 1)) IN IF g.ok THEN <<Bx("seg_enc", [hrp |-> h, ver |-> d[1], b |-> g.v])>> ELSE <<>>
      ELSE <<Bx("seg_dec", [hrp |-> Append(h, 98), t |-> Txt0])>>))
=============================================================================
