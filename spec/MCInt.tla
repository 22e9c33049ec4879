-------------------------------- MODULE MCInt --------------------------------
(* Small-scope model of integer conversions: every byte string over the edge bytes, as a
   number and back, in both orders, signed and unsigned, in every width around its own. *)
EXTENDS Api, Emit
VARIABLES b
Edge == {0, 1, 127, 128, 255} \cup (IF Deep THEN {2, 129, 254} ELSE {})
MaxLen == IF Deep THEN 5 ELSE 4
Init == b = <<>>
Next == Len(b) < MaxLen /\ (IF Len(b) < 3 THEN TRUE ELSE b[1] \in {0, 128, 255}) /\ \E x \in Edge : b' = Append(b, x)
Spec == Init /\ [][Next]_b

U == SPos(b)
S == TwosToS(b)
\* unsigned: the same bytes come back in the same width, and the number does not depend on high zeros
Unsigned == PadTo(U.mag, Len(b)) = b /\ SPos(b \o <<0, 0>>) = U
Narrow == \A w \in 0..MaxLen + 1 : Fits(U.mag, w) <=> (w >= Len(Norm(b)))
\* signed: two's complement, one value per byte string; sign extension keeps the value
Signed == /\ SFitsTwos(S, Len(b)) /\ SToTwos(S, Len(b)) = b
          /\ S.neg = (b # <<>> /\ b[Len(b)] >= 128)
          /\ TwosToS(b \o <<IF S.neg THEN 255 ELSE 0>>) = S
Offset == S.neg => SAdd(S, SPos(Pow256(Len(b)))) = U
\* script numbers: shortest form in which the top bit is the sign
ScriptNums == LET s == ScriptNum(b) IN
  /\ s[Len(s)] < 128 /\ SPos(s) = U
  /\ (Len(s) > 1 => ~(s[Len(s)] = 0 /\ s[Len(s) - 1] < 128))
FlipTwice == Rev(Rev(b)) = b
I(f, v, w) == Act("int", [f |-> f, v |-> v, w |-> w])
Bx(f, s) == Act("int", [f |-> f, b |-> b, signed |-> s])
Minim == b = <<>> \/ b[Len(b)] # 0
EmitAll == Session(<<Reset, Use("bitcoin_main"), Bx("le2i", TRUE), Bx("le2i", FALSE), Bx("be2i", TRUE), Bx("be2i", FALSE), Act("int", [f |-> "flip", b |-> b])>>
  \o (IF Minim THEN <<I("i2le", U, 0), I("i2be", U, 0), I("i2le_script", U, 0)>>
        \o Tup([j \in 1..5 |-> I(<<"i2le_padded", "i2be_padded">>[1 + ((j + Len(b)) % 2)], IF j = 5 /\ U.mag # <<>> THEN SNeg(U) ELSE U, <<Len(b), Max2(0, Len(b) - 1), Len(b) + 1, 8, Len(b) + 1>>[j])]) ELSE <<>>))
=============================================================================
