------------------------------ MODULE MCCompact ------------------------------
(* Small-scope model of compact sizes: a reader sees the bytes of a number arrive one
   by one.  Every byte string over the interesting values is reached; on each of them
   the decoder is exact, and over all of them encodings are unique and prefix-free. *)
EXTENDS CompactSize, Networks, Emit
VARIABLE b
First == {0, 1, 252, 253, 254, 255}
Inner == IF Deep THEN {0, 1, 255} ELSE {0, 255}
Low   == {0, 1, 252, 253, 255}
Width(s) == IF s = <<>> THEN 1 ELSE 1 + CSWidth(s[1])
Init == b = <<>>
Arrive == /\ Len(b) < Width(b) + 1
          /\ \E x \in IF b = <<>> THEN First ELSE IF Len(b) <= 2 THEN Low ELSE Inner : b' = Append(b, x)
Next == Arrive
Spec == Init /\ [][Next]_b
c == CSAt(b, 1)
\* the decoder takes exactly the declared width, whatever follows
Width0 == (c.ok <=> (b # <<>> /\ Len(b) >= Width(b))) /\ (c.ok => c.len = Width(b))
\* decoding inverts encoding; a short form is the only accepted one on strict networks
Exact == c.ok => LET e == CSMag(c.mag) IN
             /\ Len(e) <= c.len /\ CSMagOk(c.mag)
             /\ LET c2 == CSAt(e, 1) IN c2.ok /\ c2.canon /\ c2.len = Len(e) /\ c2.mag = c.mag
             /\ c.canon = (e = Take(b, c.len))
\* no encoding begins another: what is decoded depends on the first c.len bytes only
PrefixFree == c.ok => \A n \in 1..c.len - 1 : ~CSAt(Take(b, n), 1).ok
\* a longer form of the same value is read as that value and is not canonical
Wider == c.ok /\ c.canon /\ c.len < 9 =>
  LET w == CASE c.len = 1 -> <<253>> \o PadTo(c.mag, 2) [] c.len = 3 -> <<254>> \o PadTo(c.mag, 4) [] c.len = 5 -> <<255>> \o PadTo(c.mag, 8)
      d == CSAt(w, 1) IN d.ok /\ d.mag = c.mag /\ ~d.canon
Nets == <<"bitcoin_main", "zcash_sapling_main">>
Forms == <<"bytes", "hex", "bytearray", "bytedata">>
EmitAll ==
  Session(<<Reset>> \o Cat([i \in 1..2 |-> <<Use(Nets[i]), Act("vi_dec", [b |-> b, form |-> Forms[1 + ((Len(b) + i) % 4)]])>>])
          \o (IF c.ok /\ Len(b) = c.len THEN <<Act("vi_enc", [v |-> [neg |-> FALSE, mag |-> c.mag]])>> ELSE <<>>))
=============================================================================
