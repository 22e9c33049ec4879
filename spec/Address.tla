------------------------------ MODULE Address ------------------------------
(* Address texts (sequences of character codes) <-> payloads <-> output scripts.
   base58check, bech32 (BIP173) and cashaddr, each as encoder and exact decoder. *)
EXTENDS Wire

\* ---- base58check ----------------------------------------------------------------
B58 == <<49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,76,77,78,80,81,82,83,84,85,86,87,88,89,90,
         97,98,99,100,101,102,103,104,105,106,107,109,110,111,112,113,114,115,116,117,118,119,120,121,122>>
B58Inv == [c \in 0..127 |-> IF \E i \in 1..58 : B58[i] = c THEN (CHOOSE i \in 1..58 : B58[i] = c) - 1 ELSE 0 - 1]
B58Val(c) == IF c >= 0 /\ c <= 127 THEN B58Inv[c] ELSE 0 - 1

RECURSIVE LeadR(_, _, _)
LeadR(s, x, n) == IF n < Len(s) /\ s[n + 1] = x THEN LeadR(s, x, n + 1) ELSE n
Lead(s, x) == LeadR(s, x, 0)

\* little-endian digits ds in base b, times m plus c
RECURSIVE MulAddR(_, _, _, _, _, _)
MulAddR(ds, i, b, m, c, acc) ==
  IF i > Len(ds)
  THEN IF c = 0 THEN acc ELSE MulAddR(ds, i, b, m, c \div b, Append(acc, c % b))
  ELSE LET v == ds[i] * m + c IN MulAddR(ds, i + 1, b, m, v \div b, Append(acc, v % b))
RebaseDef(s, from, to) == Rev(FoldLeft(LAMBDA ds, x : MulAddR(ds, 1, to, from, x, <<>>), <<>>, s))
Rebase(s, from, to) == REBASE(s, from, to)

B58Enc(b) == LET z == Lead(b, 0) IN Rep(49, z) \o MapSeq(LAMBDA v : B58[v + 1], Rebase(Drop(b, z), 256, 58))
B58Dec(t) ==
  LET vs == MapSeq(B58Val, t) z == Lead(t, 49) IN
  IF \E i \in 1..Len(vs) : vs[i] < 0 THEN Bad
  ELSE Good(Zeros(z) \o Rebase(Drop(vs, z), 58, 256))
Check4(net, b) == Take(Hash256(net, b), 4)
B58CheckEnc(net, b) == B58Enc(b \o Check4(net, b))
B58CheckDec(net, t) ==
  LET d == B58Dec(t) IN
  IF ~d.ok \/ Len(d.v) < 4 THEN Bad
  ELSE LET p == Take(d.v, Len(d.v) - 4) IN
       IF Check4(net, p) = LastN(d.v, 4) THEN Good(p) ELSE Bad

\* ---- 5-bit groups ---------------------------------------------------------------
B32 == <<113,112,122,114,121,57,120,56,103,102,50,116,118,100,119,48,115,51,106,110,53,52,107,104,99,101,54,109,117,97,55,108>>
B32Inv == [c \in 0..127 |-> IF \E i \in 1..32 : B32[i] = c THEN (CHOOSE i \in 1..32 : B32[i] = c) - 1 ELSE 0 - 1]
B32Val(c) == IF c >= 0 /\ c <= 127 THEN B32Inv[c] ELSE 0 - 1
Bit8(b, k) == IF k >= 8 * Len(b) THEN 0 ELSE (b[(k \div 8) + 1] \div (2 ^ (7 - (k % 8)))) % 2
To5(b) == Tup([g \in 1..((8 * Len(b) + 4) \div 5) |->
            LET k == 5 * (g - 1) IN
            16 * Bit8(b, k) + 8 * Bit8(b, k + 1) + 4 * Bit8(b, k + 2) + 2 * Bit8(b, k + 3) + Bit8(b, k + 4)])
Bit5(v, k) == (v[(k \div 5) + 1] \div (2 ^ (4 - (k % 5)))) % 2
\* Unpadded: the left-over bits must be fewer than 5 and all zero.
To8(v) ==
  LET n == (5 * Len(v)) \div 8 left == (5 * Len(v)) % 8 IN
  IF left >= 5 \/ \E k \in (8 * n)..(8 * n + left - 1) : Bit5(v, k) = 1 THEN Bad
  ELSE Good(Tup([i \in 1..n |->
         LET k == 8 * (i - 1) IN
         128 * Bit5(v, k) + 64 * Bit5(v, k + 1) + 32 * Bit5(v, k + 2) + 16 * Bit5(v, k + 3)
         + 8 * Bit5(v, k + 4) + 4 * Bit5(v, k + 5) + 2 * Bit5(v, k + 6) + Bit5(v, k + 7)]))

\* ---- bech32 ---------------------------------------------------------------------
BGen == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
BStep(c, v) ==
  LET top == c \div 33554432 b == ((c % 33554432) * 32) ^^ v
      g(i) == IF (top \div (2 ^ (i - 1))) % 2 = 1 THEN BGen[i] ELSE 0
  IN ((((b ^^ g(1)) ^^ g(2)) ^^ g(3)) ^^ g(4)) ^^ g(5)
BPolymod(vs) == FoldLeft(BStep, 1, vs)
HrpExpand(h) == MapSeq(LAMBDA c : c \div 32, h) \o <<0>> \o MapSeq(LAMBDA c : c % 32, h)
BChecksum(h, d) ==
  LET p == BPolymod(HrpExpand(h) \o d \o Zeros(6)) ^^ 1
  IN Tup([i \in 1..6 |-> (p \div (2 ^ (5 * (6 - i)))) % 32])
BEncode(h, d) == h \o <<49>> \o MapSeq(LAMBDA v : B32[v + 1], d \o BChecksum(h, d))
ProgramOk(ver, prog) == ver <= 16 /\ Len(prog) >= 2 /\ Len(prog) <= 40
                        /\ (ver = 0 => Len(prog) \in {20, 32})
\* Segwit address of version and program for human-readable part h.
SegEnc(h, ver, prog) ==
  IF ~ProgramOk(ver, prog) THEN Bad
  ELSE LET t == BEncode(h, <<ver>> \o To5(prog)) IN IF Len(t) > 90 THEN Bad ELSE Good(t)
\* Decode a segwit address of human-readable part h: <<version, length>> and program.
SegDec(h, t) ==
  IF Len(t) > 90 \/ (\E i \in 1..Len(t) : t[i] < 33 \/ t[i] > 126)
     \/ ((\E i \in 1..Len(t) : IsUpperC(t[i])) /\ (\E i \in 1..Len(t) : IsLowerC(t[i]))) THEN Bad
  ELSE LET l == LowerT(t)
           ones == {i \in 1..Len(l) : l[i] = 49} IN
    IF ones = {} THEN Bad
    ELSE LET p == CHOOSE i \in ones : \A j \in ones : j <= i
             vs == MapSeq(B32Val, Drop(l, p)) IN
      IF p < 2 \/ Len(vs) < 7 \/ Take(l, p - 1) # h \/ (\E i \in 1..Len(vs) : vs[i] < 0) THEN Bad
      ELSE IF BPolymod(HrpExpand(h) \o vs) # 1 THEN Bad
      ELSE LET d == Take(vs, Len(vs) - 6) g == To8(Drop(d, 1)) IN
        IF ~g.ok \/ ~ProgramOk(d[1], g.v) THEN Bad
        ELSE Good(<<d[1], Len(g.v)>> \o g.v)

\* The layer below: any human-readable part and any 5-bit values.
HrpOk(h) == h # <<>> /\ \A i \in 1..Len(h) : h[i] >= 33 /\ h[i] <= 126 /\ ~IsUpperC(h[i])
BDecode(t) ==
  LET bad == [ok |-> FALSE, h |-> <<>>, d |-> <<>>] IN
  IF Len(t) > 90 \/ (\E i \in 1..Len(t) : t[i] < 33 \/ t[i] > 126)
     \/ ((\E i \in 1..Len(t) : IsUpperC(t[i])) /\ (\E i \in 1..Len(t) : IsLowerC(t[i]))) THEN bad
  ELSE LET l == LowerT(t) ones == {i \in 1..Len(l) : l[i] = 49} IN
    IF ones = {} THEN bad
    ELSE LET p == CHOOSE i \in ones : \A j \in ones : j <= i
             h == Take(l, p - 1) vs == MapSeq(B32Val, Drop(l, p)) IN
      IF h = <<>> \/ Len(vs) < 6 \/ (\E i \in 1..Len(vs) : vs[i] < 0) THEN bad
      ELSE IF BPolymod(HrpExpand(h) \o vs) # 1 THEN bad
      ELSE [ok |-> TRUE, h |-> h, d |-> Take(vs, Len(vs) - 6)]

\* ---- cashaddr -------------------------------------------------------------------
\* 40-bit values as <<high 20 bits, low 20 bits>>.
M20 == 1048576
CGen == << <<626475, 822881>>, <<498550, 891362>>, <<996325, 1029060>>, <<713450, 778920>>, <<124148, 255088>> >>
\* the five generators 98f2bc8e61 79b76d99e2 f33e5fb3c4 ae2eabe2a8 1e4f43e470
X2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
CStep(c, v) ==
  LET top == c[1] \div 32768
      hi == ((c[1] % 32768) * 32) + (c[2] \div 32768)
      lo == ((c[2] % 32768) * 32) ^^ v
      g(i) == IF (top \div (2 ^ (i - 1))) % 2 = 1 THEN CGen[i] ELSE <<0, 0>>
  IN X2(X2(X2(X2(X2(<<hi, lo>>, g(1)), g(2)), g(3)), g(4)), g(5))
CPolymod(vs) == X2(FoldLeft(CStep, <<0, 1>>, vs), <<0, 1>>)
CPrefix(p) == MapSeq(LAMBDA c : c % 32, p) \o <<0>>
CChecksum(p, d) ==
  LET c == CPolymod(CPrefix(p) \o d \o Zeros(8)) IN
  Tup([i \in 1..8 |-> IF i <= 4 THEN (c[1] \div (2 ^ (5 * (4 - i)))) % 32
                      ELSE (c[2] \div (2 ^ (5 * (8 - i)))) % 32])
COLON == 58
CashEnc(p, b) == LET d == To5(b) IN p \o <<COLON>> \o MapSeq(LAMBDA v : B32[v + 1], d \o CChecksum(p, d))
CashDec(p, t) ==
  IF ~StartsWith(t, p \o <<COLON>>) THEN Bad
  ELSE LET vs == MapSeq(B32Val, Drop(t, Len(p) + 1)) IN
    IF Len(vs) < 8 \/ (\E i \in 1..Len(vs) : vs[i] < 0) THEN Bad
    ELSE IF CPolymod(CPrefix(p) \o vs) # <<0, 0>> THEN Bad
    ELSE To8(Take(vs, Len(vs) - 8))

\* ---- the encoders as one network offers them ---------------------------------------
Bech32Enc(net, ver, prog) == IF ~HasBech32(net) THEN Bad ELSE SegEnc(Net(net).hrp, ver, prog)
Bech32Dec(net, t) == IF ~HasBech32(net) THEN Bad ELSE SegDec(Net(net).hrp, t)
CashaddrEnc(net, b) == IF ~HasCashaddr(net) THEN Bad ELSE Good(CashEnc(Net(net).ca, b))
CashaddrDec(net, t) == IF ~HasCashaddr(net) THEN Bad ELSE CashDec(Net(net).ca, t)

\* ---- scripts ----------------------------------------------------------------------
Pkh(h)  == <<118, 169, 20>> \o h \o <<136, 172>>
Sh(h)   == <<169, 20>> \o h \o <<135>>
Wpkh(h) == P2WPKH \o h
Wsh(h)  == P2WSH \o h
ScriptOf(kind, h) == CASE kind = "pkh" -> Pkh(h) [] kind = "sh" -> Sh(h)
                       [] kind = "wpkh" -> Wpkh(h) [] kind = "wsh" -> Wsh(h)
\* Kind and hash of a standard script; kind "none" otherwise.
Classify(s) ==
  IF Len(s) = 25 /\ s = Pkh(SubSeq(s, 4, 23)) THEN [kind |-> "pkh", h |-> SubSeq(s, 4, 23)]
  ELSE IF Len(s) = 23 /\ s = Sh(SubSeq(s, 3, 22)) THEN [kind |-> "sh", h |-> SubSeq(s, 3, 22)]
  ELSE IF Len(s) = 22 /\ StartsWith(s, P2WPKH) THEN [kind |-> "wpkh", h |-> Drop(s, 2)]
  ELSE IF Len(s) = 34 /\ StartsWith(s, P2WSH) THEN [kind |-> "wsh", h |-> Drop(s, 2)]
  ELSE [kind |-> "none", h |-> <<>>]

\* ---- addresses of a network ----------------------------------------------------------
\* Address text for kind and hash; cash = prefer the cash form where there is one.
AddrOf(net, kind, h, cash) ==
  LET n == Net(net) IN
  IF kind \in {"wpkh", "wsh"} THEN
    IF ~n.segwit THEN Bad
    ELSE IF n.segenc = "base58" THEN Good(B58CheckEnc(net, ScriptOf(kind, h)))
    ELSE Bech32Enc(net, 0, h)
  ELSE IF cash /\ n.ca # <<>> THEN CashaddrEnc(net, (IF kind = "pkh" THEN CaPkh ELSE CaSh) \o h)
  ELSE Good(B58CheckEnc(net, (IF kind = "pkh" THEN n.p2pkh ELSE n.p2sh) \o h))

ARes(st, kind, h, raw) == [st |-> st, kind |-> kind, h |-> h, raw |-> raw]
Pref(n, raw, kind, p, w) == raw # <<>> /\ StartsWith(raw, p) /\ Len(raw) = Len(p) + w
\* What a text means on a network: st "yes" (kind, hash, raw), "foreign" (an encoding that
\* decodes but stands for no supported kind), "open", or "no" (decodes under no encoding).
Meaning(net, t) ==
  LET n == Net(net) b == B58CheckDec(net, t) IN
  IF b.ok THEN
    IF Pref(n, b.v, "pkh", n.p2pkh, 20) THEN ARes("yes", "pkh", LastN(b.v, 20), b.v)
    ELSE IF Pref(n, b.v, "sh", n.p2sh, 20) THEN ARes("yes", "sh", LastN(b.v, 20), b.v)
    ELSE IF n.segwit /\ n.segenc = "base58" /\ Pref(n, b.v, "wpkh", P2WPKH, 20) THEN ARes("yes", "wpkh", LastN(b.v, 20), b.v)
    ELSE IF n.segwit /\ n.segenc = "base58" /\ Pref(n, b.v, "wsh", P2WSH, 32) THEN ARes("yes", "wsh", LastN(b.v, 32), b.v)
    ELSE ARes("foreign", "none", <<>>, b.v)
  ELSE LET s == Bech32Dec(net, t) IN
  IF s.ok THEN
    IF n.segenc # "bech32" THEN ARes("open", "none", <<>>, s.v)
    ELSE IF s.v[1] # 0 THEN ARes("foreign", "none", <<>>, s.v)
    ELSE ARes("yes", IF s.v[2] = 20 THEN "wpkh" ELSE "wsh", Drop(s.v, 2), s.v)
  ELSE LET c == CashaddrDec(net, t) IN
  IF c.ok THEN
    IF Pref(n, c.v, "pkh", CaPkh, 20) THEN ARes("yes", "pkh", LastN(c.v, 20), c.v)
    ELSE IF Pref(n, c.v, "sh", CaSh, 20) THEN ARes("yes", "sh", LastN(c.v, 20), c.v)
    ELSE ARes("foreign", "none", <<>>, c.v)
  ELSE ARes("no", "none", <<>>, <<>>)
\* All-upper-case cash addresses are neither required nor forbidden.
UpperCash(net, t) == HasCashaddr(net) /\ t # LowerT(t) /\ t = UpperT(t) /\ CashaddrDec(net, LowerT(t)).ok

ToScript(net, t) == LET m == Meaning(net, t) IN
  IF m.st = "yes" THEN [st |-> "yes", v |-> ScriptOf(m.kind, m.h)]
  ELSE IF m.st = "open" \/ UpperCash(net, t) THEN [st |-> "open", v |-> <<>>] ELSE [st |-> "no", v |-> <<>>]
FromScript(net, s, cash) == LET c == Classify(s) IN
  IF c.kind = "none" THEN Bad ELSE AddrOf(net, c.kind, c.h, cash)
ParseHash(net, t) == LET m == Meaning(net, t) IN
  IF m.st = "yes" THEN [st |-> "yes", v |-> m.h]
  ELSE IF m.st = "open" \/ UpperCash(net, t) THEN [st |-> "open", v |-> <<>>] ELSE [st |-> "no", v |-> <<>>]
ParseRaw(net, t) == LET m == Meaning(net, t) IN
  IF m.st = "yes" THEN [st |-> "yes", v |-> m.raw]
  ELSE IF m.st \in {"open", "foreign"} \/ UpperCash(net, t) THEN [st |-> "open", v |-> <<>>]
  ELSE [st |-> "no", v |-> <<>>]

\* ---- keys and script texts -----------------------------------------------------------
KeyHash(net, pub) == Hash160(net, pub)
ShHash(net, script, wit) == IF wit THEN SHA256(script) ELSE Hash160(net, script)
MakePkh(net, pub, wit, cash) == AddrOf(net, IF wit THEN "wpkh" ELSE "pkh", KeyHash(net, pub), cash)
MakeSh(net, toks, wit, cash) ==
  LET s == SerText(net, toks) IN
  IF ~s.ok THEN Bad ELSE AddrOf(net, IF wit THEN "wsh" ELSE "sh", ShHash(net, s.v, wit), cash)
PkhScript(net, pub, wit) == IF wit /\ ~Net(net).segwit THEN Bad
                            ELSE Good(ScriptOf(IF wit THEN "wpkh" ELSE "pkh", KeyHash(net, pub)))
ShScriptOfBytes(net, b, wit) == IF wit /\ ~Net(net).segwit THEN Bad
                            ELSE Good(ScriptOf(IF wit THEN "wsh" ELSE "sh", ShHash(net, b, wit)))
ShScript(net, toks, wit) ==
  LET s == SerText(net, toks) IN IF ~s.ok THEN Bad ELSE ShScriptOfBytes(net, s.v, wit)
=============================================================================
