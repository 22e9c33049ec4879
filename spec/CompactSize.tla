---------------------------- MODULE CompactSize ----------------------------
(* Bitcoin's variable-length integer: unique shortest form, exact decoding. *)
EXTENDS Bytes

\* Encoding of a natural given as magnitude; only defined below 2^64.
CSMagOk(m) == Fits(m, 8)
CSMag(m) ==
  LET n == Norm(m) k == Len(n) IN
  IF k = 0 THEN <<0>>
  ELSE IF k = 1 /\ n[1] <= 252 THEN n
  ELSE IF k <= 2 THEN <<253>> \o PadTo(n, 2)
  ELSE IF k <= 4 THEN <<254>> \o PadTo(n, 4)
  ELSE <<255>> \o PadTo(n, 8)

\* Encoding of a length (n < 2^31).
CS(n) == IF n <= 252 THEN <<n>>
         ELSE IF n <= 65535 THEN <<253>> \o LE(n, 2)
         ELSE <<254>> \o LE(n, 4)

CSWidth(prefix) == IF prefix <= 252 THEN 0 ELSE IF prefix = 253 THEN 2 ELSE IF prefix = 254 THEN 4 ELSE 8

\* Decode at position p (1-based) of b:
\*   ok, len = bytes read, mag = value, n = value saturated at BIG, canon = shortest form
CSBad == [ok |-> FALSE, len |-> 0, mag |-> <<>>, n |-> 0, canon |-> FALSE]
CSAt(b, p) ==
  IF p > Len(b) THEN CSBad
  ELSE LET w == CSWidth(b[p]) IN
    IF p + w > Len(b) THEN CSBad
    ELSE LET m == Norm(IF w = 0 THEN <<b[p]>> ELSE SubSeq(b, p + 1, p + w)) IN
      [ok |-> TRUE, len |-> w + 1, mag |-> m, n |-> LEInt(m),
       canon |-> CSMag(m) = SubSeq(b, p, p + w)]
=============================================================================
