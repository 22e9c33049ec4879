------------------------------- MODULE Blake -------------------------------
(* The BLAKE hash family (SHA-3 final round version) written out from its
   specification, and the streaming hasher as a state machine.  Words are
   little-endian sequences of 16-bit limbs: 2 limbs for BLAKE-224/256, 4 for
   BLAKE-384/512.                                                          *)
EXTENDS Bytes, RHash

L16 == 65536
Small(size) == size \in {224, 256}
NL(size) == IF Small(size) THEN 2 ELSE 4          \* limbs per word
WB(size) == 2 * NL(size)                          \* bytes per word
BB(size) == 16 * WB(size)                         \* bytes per block
RoundsOf(size) == IF Small(size) THEN 14 ELSE 16
Rot(size) == IF Small(size) THEN <<16, 12, 8, 7>> ELSE <<32, 25, 16, 11>>

\* big-endian bytes <-> limbs
WordOf(b) == Tup([i \in 1..(Len(b) \div 2) |-> LET j == Len(b) - 2 * (i - 1) IN 256 * b[j - 1] + b[j]])
BytesOf(w) == Cat([i \in 1..Len(w) |-> LET x == w[Len(w) + 1 - i] IN <<x \div 256, x % 256>>])

WXor(a, b) == Tup([i \in 1..Len(a) |-> a[i] ^^ b[i]])
WAdd2(a, b) == LET s1 == a[1] + b[1] IN <<s1 % L16, (a[2] + b[2] + (s1 \div L16)) % L16>>
WAdd4(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div L16)
      s3 == a[3] + b[3] + (s2 \div L16)
  IN <<s1 % L16, s2 % L16, s3 % L16, (a[4] + b[4] + (s3 \div L16)) % L16>>
WAdd(a, b) == IF Len(a) = 2 THEN WAdd2(a, b) ELSE WAdd4(a, b)
\* rotate right by r bits
WRot(a, r) ==
  LET n == Len(a) q == r \div 16 s == r % 16 p == 2 ^ s m == 2 ^ (16 - s)
      g(i) == a[((i - 1) % n) + 1]
  IN Tup([i \in 1..n |-> (g(i + q) \div p) + (g(i + q + 1) % p) * m])

\* ---- constants: leading digits of pi, and the SHA-2 initial values ---------------
HexW(t) == WordOf(t)
C64B == << <<36,63,106,136,133,163,8,211>>, <<19,25,138,46,3,112,115,68>>, <<164,9,56,34,41,159,49,208>>,
  <<8,46,250,152,236,78,108,137>>, <<69,40,33,230,56,208,19,119>>, <<190,84,102,207,52,233,12,108>>,
  <<192,172,41,183,201,124,80,221>>, <<63,132,213,181,181,71,9,23>>, <<146,22,213,217,137,121,251,27>>,
  <<209,49,11,166,152,223,181,172>>, <<47,253,114,219,208,26,223,183>>, <<184,225,175,237,106,38,126,150>>,
  <<186,124,144,69,241,44,127,153>>, <<36,161,153,71,179,145,108,247>>, <<8,1,242,226,133,142,252,22>>,
  <<99,105,32,216,113,87,78,105>> >>
IV64B == << <<106,9,230,103,243,188,201,8>>, <<187,103,174,133,132,202,167,59>>, <<60,110,243,114,254,148,248,43>>,
  <<165,79,245,58,95,29,54,241>>, <<81,14,82,127,173,230,130,209>>, <<155,5,104,140,43,62,108,31>>,
  <<31,131,217,171,251,65,189,107>>, <<91,224,205,25,19,126,33,121>> >>
IV48B == << <<203,187,157,93,193,5,158,216>>, <<98,154,41,42,54,124,213,7>>, <<145,89,1,90,48,112,221,23>>,
  <<21,47,236,216,247,14,89,57>>, <<103,51,38,103,255,192,11,49>>, <<142,180,74,135,104,88,21,17>>,
  <<219,12,46,13,100,249,143,167>>, <<71,181,72,29,190,250,79,164>> >>
\* the 32-bit constants are the first halves, in order, of the same digits
C64 == MapSeq(WordOf, C64B)
C32 == Tup([i \in 1..16 |-> WordOf(SubSeq(C64B[(i + 1) \div 2], IF i % 2 = 1 THEN 1 ELSE 5, IF i % 2 = 1 THEN 4 ELSE 8))])
IV512 == MapSeq(WordOf, IV64B)
IV384 == MapSeq(WordOf, IV48B)
IV256 == MapSeq(LAMBDA b : WordOf(SubSeq(b, 1, 4)), IV64B)
IV224 == MapSeq(LAMBDA b : WordOf(SubSeq(b, 5, 8)), IV48B)
IV(size) == CASE size = 224 -> IV224 [] size = 256 -> IV256 [] size = 384 -> IV384 [] size = 512 -> IV512
CC(size) == IF Small(size) THEN C32 ELSE C64

Sigma == <<
  <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
  <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>, <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
  <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>, <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
  <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>, <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
  <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>, <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>> >>
GIdx == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
           <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>

GStep(size, v, m, c, rot, r, g) ==
  LET ix == GIdx[g] s == Sigma[(r % 10) + 1]
      p == s[2 * g - 1] + 1 q == s[2 * g] + 1
      a1 == WAdd(WAdd(v[ix[1]], v[ix[2]]), WXor(m[p], c[q]))
      d1 == WRot(WXor(v[ix[4]], a1), rot[1])
      c1 == WAdd(v[ix[3]], d1)
      b1 == WRot(WXor(v[ix[2]], c1), rot[2])
      a2 == WAdd(WAdd(a1, b1), WXor(m[q], c[p]))
      d2 == WRot(WXor(d1, a2), rot[3])
      c2 == WAdd(c1, d2)
      b2 == WRot(WXor(b1, c2), rot[4])
  IN [v EXCEPT ![ix[1]] = a2, ![ix[2]] = b2, ![ix[3]] = c2, ![ix[4]] = d2]

\* Compress one block; t = number of message BITS it brings the total to (0 for a
\* block without message bits), below 2^31.
TWord(size, t) == <<t % L16, t \div L16>> \o Zeros(NL(size) - 2)
CompressDef(size, h, salt, block, t) ==
  LET w == WB(size) c == CC(size) rot == Rot(size)
      m == Tup([i \in 1..16 |-> WordOf(SubSeq(block, w * (i - 1) + 1, w * i))])
      tw == TWord(size, t)
      v0 == h \o Tup([i \in 1..4 |-> WXor(salt[i], c[i])])
              \o <<WXor(tw, c[5]), WXor(tw, c[6]), c[7], c[8]>>
      v == FoldLeft(LAMBDA x, k : GStep(size, x, m, c, rot, k \div 8, (k % 8) + 1), v0,
                    Tup([k \in 1..(8 * RoundsOf(size)) |-> k - 1]))
  IN Tup([i \in 1..8 |-> WXor(WXor(h[i], salt[((i - 1) % 4) + 1]), WXor(v[i], v[i + 8]))])
Compress(size, h, salt, block, t) == BLAKEC(size, h, salt, block, t, Sigma, CC(size))

\* Padding: 1, zeros, (1 for the full-size variants), bit length big-endian.
Padded(size, n) ==
  LET b == BB(size) lw == 2 * WB(size) full == size \in {256, 512}
      z == (2 * b - (n % b) - lw - 1) % b      \* bytes between the first marker and the length
      last == IF full THEN 1 ELSE 0
      mid == IF z = 0 THEN <<128 + last>> ELSE <<128>> \o Zeros(z - 1) \o <<last>>
      bits == 8 * n
  IN mid \o Zeros(lw - 4) \o <<bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>

SaltWords(size, s) ==
  LET w == WB(size) n == 4 * w
      p == IF Len(s) < n THEN Zeros(n - Len(s)) \o s ELSE LastN(s, n)
  IN Tup([i \in 1..4 |-> WordOf(SubSeq(p, w * (i - 1) + 1, w * i))])

BlakeHash(size, salt, msg) ==
  LET b == BB(size) n == Len(msg) full == msg \o Padded(size, n)
      nb == Len(full) \div b
      ctr(i) == IF 8 * b * (i - 1) >= 8 * n THEN 0 ELSE Min2(8 * b * i, 8 * n)
      h == FoldLeft(LAMBDA x, i : Compress(size, x, salt, SubSeq(full, b * (i - 1) + 1, b * i), ctr(i)),
                    IV(size), Tup([i \in 1..nb |-> i]))
  IN Take(CatMap(BytesOf, h), size \div 8)
Blake(size, salt, msg) == BlakeHash(size, SaltWords(size, salt), msg)

\* ---- the streaming hasher as a state machine ---------------------------------------
\* state: phase "new" | "open" | "done", chain value, bytes absorbed, buffered tail
HNew(size, salt) == [size |-> size, salt |-> SaltWords(size, salt), phase |-> "new",
                     h |-> IV(size), n |-> 0, buf |-> <<>>, out |-> <<>>]
HSalt(s, salt) == [s EXCEPT !.salt = SaltWords(s.size, salt)]      \* while "new" only
RECURSIVE HAbsorb(_)
HAbsorb(s) ==
  IF Len(s.buf) < BB(s.size) THEN s
  ELSE HAbsorb([s EXCEPT !.h = Compress(s.size, s.h, s.salt, Take(s.buf, BB(s.size)), 8 * (s.n + BB(s.size))),
                         !.n = @ + BB(s.size), !.buf = Drop(@, BB(s.size))])
HUpdate(s, data) == HAbsorb([s EXCEPT !.phase = "open", !.buf = @ \o data])
HFinal(s) ==
  IF s.phase = "done" THEN s
  ELSE LET total == s.n + Len(s.buf)
           tail == s.buf \o Padded(s.size, total)
           b == BB(s.size)
           ctr(i) == IF s.n + b * (i - 1) >= total THEN 0 ELSE 8 * Min2(s.n + b * i, total)
           h == FoldLeft(LAMBDA x, i : Compress(s.size, x, s.salt, SubSeq(tail, b * (i - 1) + 1, b * i), ctr(i)),
                         s.h, Tup([i \in 1..(Len(tail) \div b) |-> i]))
       IN [s EXCEPT !.phase = "done", !.out = Take(CatMap(BytesOf, h), s.size \div 8)]

\* ---- BLAKE2 (RFC 7693), with the whole parameter block of the reference specification ----------
\* bits: 64 (BLAKE2b) or 32 (BLAKE2s); little-endian throughout; no constants, no salt in the rounds
B2NL(bits) == bits \div 16
B2Block(bits) == 2 * bits                          \* bytes per message block
B2Max(bits) == bits                                \* longest digest and key, and the size of the parameter block
B2Rot(bits) == IF bits = 64 THEN <<32, 24, 16, 63>> ELSE <<16, 12, 8, 7>>
B2Rounds(bits) == IF bits = 64 THEN 12 ELSE 10
B2IV(bits) == IF bits = 64 THEN IV512 ELSE IV256
WordLE(b) == Tup([i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]])
WordsLE(bits, b) == LET w == bits \div 8 IN Tup([i \in 1..(Len(b) \div w) |-> WordLE(SubSeq(b, w * (i - 1) + 1, w * i))])
BytesLE(w) == Cat([i \in 1..Len(w) |-> <<w[i] % 256, w[i] \div 256>>])
WNot(w) == Tup([i \in 1..Len(w) |-> 65535 - w[i]])
B2G(v, m, rot, ix, x, y) ==
  LET a1 == WAdd(WAdd(v[ix[1]], v[ix[2]]), x)
      d1 == WRot(WXor(v[ix[4]], a1), rot[1])
      c1 == WAdd(v[ix[3]], d1)
      b1 == WRot(WXor(v[ix[2]], c1), rot[2])
      a2 == WAdd(WAdd(a1, b1), y)
      d2 == WRot(WXor(d1, a2), rot[3])
      c2 == WAdd(c1, d2)
      b2 == WRot(WXor(b1, c2), rot[4])
  IN [v EXCEPT ![ix[1]] = a2, ![ix[2]] = b2, ![ix[3]] = c2, ![ix[4]] = d2]
\* one block; t = bytes so far; the last block of all, and of the last node, set one flag word each
B2Compress(bits, h, block, t, final, node) ==
  LET m == WordsLE(bits, block) iv == B2IV(bits) rot == B2Rot(bits)
      tw == <<t % L16, t \div L16>> \o Zeros(B2NL(bits) - 2)
      v0 == h \o Take(iv, 4) \o <<WXor(iv[5], tw), iv[6], IF final THEN WNot(iv[7]) ELSE iv[7],
                                  IF final /\ node THEN WNot(iv[8]) ELSE iv[8]>>
      v == FoldLeft(LAMBDA x, k : LET g == (k % 8) + 1 s == Sigma[((k \div 8) % 10) + 1] IN
                      B2G(x, m, rot, GIdx[g], m[s[2 * g - 1] + 1], m[s[2 * g] + 1]), v0,
                    Tup([k \in 1..(8 * B2Rounds(bits)) |-> k - 1]))
  IN Tup([i \in 1..8 |-> WXor(h[i], WXor(v[i], v[i + 8]))])
B2Def(bits, msg, params, node) ==
  LET bb == B2Block(bits) n == Len(msg) nb == Max2(1, (n + bb - 1) \div bb)
      full == msg \o Zeros(nb * bb - n)
      iv == B2IV(bits) ps == WordsLE(bits, params)
      h == FoldLeft(LAMBDA x, i : B2Compress(bits, x, SubSeq(full, bb * (i - 1) + 1, bb * i), Min2(bb * i, n), i = nb, node),
                    Tup([i \in 1..8 |-> WXor(iv[i], ps[i])]), Tup([i \in 1..nb |-> i]))
  IN Take(CatMap(BytesLE, h), params[1])
\* the parameters of one hash: digest size, key, tree shape (numbers wider than a byte as little-endian bytes), salt, personalisation
B2Plain(bits) == [digest |-> B2Max(bits), key |-> <<>>, fanout |-> 1, depth |-> 1, leaf |-> Zeros(4), noff |-> Zeros(IF bits = 64 THEN 8 ELSE 6),
                  ndepth |-> 0, inner |-> 0, salt |-> <<>>, person |-> <<>>, last |-> FALSE]
B2Valid(bits, p) ==
  /\ p.digest \in 1..B2Max(bits) /\ Len(p.key) <= B2Max(bits) /\ p.fanout \in 0..255 /\ p.depth \in 1..255 /\ p.ndepth \in 0..255
  /\ p.inner \in 0..B2Max(bits) /\ Len(p.salt) <= bits \div 4 /\ Len(p.person) <= bits \div 4
B2Params(bits, p) ==
  <<p.digest, Len(p.key), p.fanout, p.depth>> \o p.leaf \o p.noff \o <<p.ndepth, p.inner>> \o Zeros(IF bits = 64 THEN 14 ELSE 0)
  \o PadTo(p.salt, bits \div 4) \o PadTo(p.person, bits \div 4)
B2Keyed(bits, p, msg) == IF p.key = <<>> THEN msg ELSE PadTo(p.key, B2Block(bits)) \o msg
Blake2(bits, p, msg) == BLAKE2P(B2Keyed(bits, p, msg), B2Params(bits, p), p.last)
Blake2Def(bits, p, msg) == B2Def(bits, B2Keyed(bits, p, msg), B2Params(bits, p), p.last)

\* ---- UTF-8 ---------------------------------------------------------------------------
Utf8C(c) == IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(t) == CatMap(Utf8C, t)
=============================================================================
