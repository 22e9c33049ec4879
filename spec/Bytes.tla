------------------------------- MODULE Bytes -------------------------------
(* Byte strings are Seq(0..255).  Numbers that may exceed TLC's 32-bit integers
   are little-endian byte strings as well ("magnitudes"). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Bitwise, TLC, SequencesExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Force a function constructor into a tuple (TLC keeps [x \in S |-> e] lazy).
Tup(f) == <<>> \o f

Rep(x, n)   == Tup([i \in 1..n |-> x])
Zeros(n)    == Rep(0, n)
MapSeq(f(_), s) == Tup([i \in 1..Len(s) |-> f(s[i])])
Rev(s)      == Tup([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Take(s, n)  == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n)  == SubSeq(s, n + 1, Len(s))
LastN(s, n) == Drop(s, Max2(0, Len(s) - n))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* Concatenation of a sequence of sequences, divide and conquer.
RECURSIVE CatR(_, _, _)
CatR(ss, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN ss[lo]
  ELSE IF hi = lo + 1 THEN ss[lo] \o ss[hi]
  ELSE LET m == (lo + hi) \div 2 IN CatR(ss, lo, m) \o CatR(ss, m + 1, hi)
Cat(ss) == CatR(ss, 1, Len(ss))
CatMap(f(_), s) == Cat([i \in 1..Len(s) |-> f(s[i])])

\* Small natural n < 2^31 as w little-endian bytes (caller ensures it fits).
RECURSIVE LE(_, _)
LE(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, w - 1)

\* Minimal little-endian magnitude of a small natural; zero is <<>>.
RECURSIVE Mag(_)
Mag(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o Mag(n \div 256)

\* Strip high zero bytes.
RECURSIVE Norm(_)
Norm(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Norm(SubSeq(m, 1, Len(m) - 1))

\* Pad a magnitude to w bytes (caller ensures Len(Norm(m)) <= w).
PadTo(m, w) == LET n == Norm(m) IN n \o Zeros(w - Len(n))
Fits(m, w)  == Len(Norm(m)) <= w

BIG == 1073741824     \* stands for every number >= 2^30
\* Little-endian bytes to an integer, saturating at BIG.
RECURSIVE LEInt(_)
LEInt(b) ==
  IF b = <<>> THEN 0
  ELSE LET n == Norm(b) IN
       IF Len(n) > 4 \/ (Len(n) = 4 /\ n[4] >= 64) THEN BIG
       ELSE IF n = <<>> THEN 0
       ELSE n[1] + 256 * LEInt(Drop(n, 1))

\* Comparison of magnitudes.
RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) == IF i = 0 THEN 0
                 ELSE IF a[i] < b[i] THEN 0 - 1
                 ELSE IF a[i] > b[i] THEN 1 ELSE CmpR(a, b, i - 1)
MagCmp(x, y) == LET a == Norm(x) b == Norm(y) IN
  IF Len(a) < Len(b) THEN 0 - 1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpR(a, b, Len(a))
MagLess(x, y) == MagCmp(x, y) < 0
MagLeq(x, y)  == MagCmp(x, y) <= 0

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* Magnitude addition and subtraction (x >= y).
RECURSIVE AddR(_, _, _, _, _)
AddR(x, y, i, c, acc) ==
  IF i > Max2(Len(x), Len(y)) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == At(x, i) + At(y, i) + c IN AddR(x, y, i + 1, s \div 256, Append(acc, s % 256))
MagAdd(x, y) == Norm(AddR(x, y, 1, 0, <<>>))
RECURSIVE SubR(_, _, _, _, _)
SubR(x, y, i, c, acc) ==
  IF i > Len(x) THEN acc
  ELSE LET d == x[i] - At(y, i) - c IN
       SubR(x, y, i + 1, IF d < 0 THEN 1 ELSE 0, Append(acc, (d + 256) % 256))
MagSub(x, y) == Norm(SubR(x, y, 1, 0, <<>>))

\* Signed numbers: [neg |-> BOOLEAN, mag |-> normalised magnitude]; no negative zero.
Int0      == [neg |-> FALSE, mag |-> <<>>]
SInt(neg, m) == LET n == Norm(m) IN [neg |-> neg /\ n # <<>>, mag |-> n]
SAdd(a, b) ==
  IF a.neg = b.neg THEN SInt(a.neg, MagAdd(a.mag, b.mag))
  ELSE IF MagLeq(b.mag, a.mag) THEN SInt(a.neg, MagSub(a.mag, b.mag))
       ELSE SInt(b.neg, MagSub(b.mag, a.mag))
SNeg(a) == SInt(~a.neg, a.mag)
SSub(a, b) == SAdd(a, SNeg(b))
SPos(m) == SInt(FALSE, m)
SSum(ss) == FoldLeft(SAdd, Int0, ss)

\* Two's complement of width w bytes.
Pow256(w) == Zeros(w) \o <<1>>
TwosToS(b) == IF b = <<>> THEN Int0
              ELSE IF b[Len(b)] < 128 THEN SPos(b)
              ELSE SInt(TRUE, MagSub(Pow256(Len(b)), b))
SFitsTwos(s, w) ==
  IF w = 0 THEN s = Int0
  ELSE IF s.neg THEN MagLeq(s.mag, Zeros(w - 1) \o <<128>>)
  ELSE MagLess(s.mag, Zeros(w - 1) \o <<128>>)
SToTwos(s, w) == IF s.neg THEN PadTo(MagSub(Pow256(w), s.mag), w) ELSE PadTo(s.mag, w)

AllZero(b) == \A i \in 1..Len(b) : b[i] = 0

\* ---- text -----------------------------------------------------------------
\* Text is a sequence of character codes; these map codes to lower/upper case.
IsUpperC(c) == c >= 65 /\ c <= 90
IsLowerC(c) == c >= 97 /\ c <= 122
LowerC(c) == IF IsUpperC(c) THEN c + 32 ELSE c
UpperC(c) == IF IsLowerC(c) THEN c - 32 ELSE c
LowerT(t) == MapSeq(LowerC, t)
UpperT(t) == MapSeq(UpperC, t)
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 0 - 1
\* blanks between the digits: tolerated or not, nobody relies on it
Blank(t) == \E i \in 1..Len(t) : t[i] \in {9, 10, 11, 12, 13, 32}
IsHexText(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : HexVal(t[i]) >= 0
FromHexText(t) == Tup([i \in 1..(Len(t) \div 2) |-> 16 * HexVal(t[2*i - 1]) + HexVal(t[2*i])])
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
ToHexText(b) == Tup([i \in 1..(2 * Len(b)) |->
                  HexDigit(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)])
\* First index (from 1) of sub in s, or 0.
FindSub(s, sub) ==
  LET C == {i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub}
  IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : i <= j
=============================================================================
