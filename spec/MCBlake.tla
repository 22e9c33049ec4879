------------------------------- MODULE MCBlake -------------------------------
(* Small-scope model of a streaming hasher: a message arrives in pieces, of any lengths
   around the block and padding boundaries; whatever the pieces, the digest is that of
   the message.                                                                        *)
EXTENDS Blake, Emit
VARIABLES size, salted, s, msg, pieces
vars == <<size, salted, s, msg, pieces>>
Pat(n, o) == Tup([i \in 1..n |-> (91 * (i + o) + 7 * o) % 256])
SaltOf == IF salted THEN Pat(4 * WB(size), 5) ELSE <<>>
Lens == LET b == BB(size) l == 2 * WB(size) IN
        {0, 1, b - l - 1, b - 1, b, b + 1} \cup (IF Deep THEN {2, b - l - 2, b - l, (b \div 2), 2 * b - l - 1, 2 * b - 1, 2 * b} ELSE {b - l})
MaxPieces == IF Deep THEN 4 ELSE 3
Few == {1, BB(size) - 1, BB(size)}     \* the last pieces of the longest sequences
Init == size \in {224, 256, 384, 512} /\ salted \in BOOLEAN /\ s = HNew(size, SaltOf) /\ msg = <<>> /\ pieces = <<>>
Feed == /\ Len(pieces) < (IF salted /\ ~Deep THEN 2 ELSE MaxPieces)
        /\ \E n \in (IF Len(pieces) < 2 THEN Lens ELSE Few) :
             LET x == Pat(n, Len(msg)) IN
             /\ s' = HUpdate(s, x) /\ msg' = msg \o x /\ pieces' = Append(pieces, n)
        /\ UNCHANGED <<size, salted>>
Next == Feed
Spec == Init /\ [][Next]_vars

\* what the hasher promises
OneShot == HFinal(s).out = Blake(size, SaltOf, msg)
Buffered == Len(s.buf) < BB(size) /\ s.n % BB(size) = 0 /\ s.n + Len(s.buf) = Len(msg) /\ Drop(msg, s.n) = s.buf
Settled == LET f == HFinal(s) IN HFinal(f) = f /\ Len(f.out) = size \div 8
\* the accelerated compression is the defined one
CompressLaw == Len(pieces) = 1 =>
  LET b == Take(Pat(BB(size), Len(msg)), BB(size)) sw == SaltWords(size, SaltOf) IN
  Compress(size, s.h, sw, b, 8 * Len(msg)) = CompressDef(size, s.h, sw, b, 8 * Len(msg))
At0(i) == LET RECURSIVE Sum(_) Sum(j) == IF j = 0 THEN 0 ELSE pieces[j] + Sum(j - 1) IN Sum(i - 1)
Piece(i) == Pat(pieces[i], At0(i))
Hows == <<"final", "digest", "hex">>
Tail1 == Len(pieces) > 0 /\ Len(msg) % 2 = 1        \* the last piece handed over on finishing
Salt(x) == <<Act("bl_salt", [h |-> 1, b |-> x, form |-> "bytes"])>>
\* salting again with the same salt changes nothing; only a hasher that has absorbed nothing can be salted
SaltLaw == s.phase = "new" => HSalt(s, SaltOf) = s
Emitted == Len(pieces) >= 1
EmitAll == Emitted => Session(
  <<Reset, Act("bl_new", [h |-> 1, size |-> size, salt |-> IF salted THEN <<SaltOf>> ELSE <<>>])>>
  \o (IF Len(msg) % 3 = 0 THEN Salt(SaltOf) ELSE <<>>)
  \o Tup([i \in 1..(Len(pieces) - IF Tail1 THEN 1 ELSE 0) |-> Act("bl_update", [h |-> 1, b |-> Piece(i), text |-> FALSE, form |-> IF (Len(msg) + i) % 5 = 0 THEN "bytearray" ELSE "bytes"])])
  \o <<Act("bl_final", [h |-> 1, how |-> Hows[1 + (Len(msg) % 3)], b |-> IF Tail1 THEN Piece(Len(pieces)) ELSE <<>>, text |-> FALSE, form |-> "bytes"])>>
  \o (IF Len(msg) % 5 < 2 THEN Salt(<<1, 2, 3>>) ELSE <<>>)
  \o (IF Len(msg) % 4 = 0 THEN <<Act("bl_final", [h |-> 1, how |-> "final", b |-> <<>>, text |-> FALSE, form |-> "bytes"])>> ELSE <<>>)
  \o (IF Len(pieces) = 1 THEN <<Act("hash", [f |-> "blake", b |-> msg, size |-> <<size>>, person |-> IF salted THEN <<SaltOf>> ELSE <<>>])>> ELSE <<>>))
=============================================================================
