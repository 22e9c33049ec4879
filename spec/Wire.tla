-------------------------------- MODULE Wire --------------------------------
(* Wire formats: every transaction format and part, as abstract records, with
   serialisation, validity and parsing.  Abstract records hold byte strings only.

   outpoint [txid, index]              doutpoint [txid, index, tree]
   txin  [op, stack, redeem, seq]      dtxin  [op, seq]           (op = bytes)
   txout [value, script]               dtxout [value, version, script]
   witem [item]   witness [stack]      dwitness [value, height, index, stack, redeem]
   tx    [version, flag, ins, outs, wits, lock]    flag = <<>> or <<bytes>>
   sproof/gproof [parts]               sjs/gjs [vold .. notes], proof = bytes
   gspend, goutput                     sprout, overwinter, sapling, decred        *)
EXTENDS Script, RHash

Hash256(net, b) == IF net \in DecredNets THEN BLAKE256(BLAKE256(b)) ELSE SHA256(SHA256(b))
Hash160(net, b) == RIPEMD160(IF net \in DecredNets THEN BLAKE256(b) ELSE SHA256(b))
DSHA(b) == SHA256(SHA256(b))
Opt(x) == <<x>>
None == <<>>
FromOpt(o) == IF o = <<>> THEN <<>> ELSE o[1]

\* ---------------------------------------------------------------- serialisation
VarBytes(b) == CS(Len(b)) \o b
SerTxIn(i)  == i.op \o CS(Len(i.stack) + Len(i.redeem)) \o i.stack \o i.redeem \o i.seq
SerTxOut(o) == o.value \o VarBytes(o.script)
SerVec(f(_), s) == CS(Len(s)) \o CatMap(f, s)
SerWitness(w) == SerVec(VarBytes, w)
SerTxNoWit(t) == t.version \o SerVec(SerTxIn, t.ins) \o SerVec(SerTxOut, t.outs) \o t.lock
SerTx(t) == t.version \o FromOpt(t.flag) \o SerVec(SerTxIn, t.ins) \o SerVec(SerTxOut, t.outs)
            \o CatMap(SerWitness, t.wits) \o t.lock

SProofSizes == <<33, 33, 65, 33, 33, 33, 33, 33>>
GProofSizes == <<48, 96, 48>>
JSFields == <<"vold", "vnew", "anchor", "nulls", "comms", "ek", "seed", "macs", "proof", "notes">>
SJSSizes == <<8, 8, 32, 64, 64, 32, 32, 64, 296, 1202>>
GJSSizes == <<8, 8, 32, 64, 64, 32, 32, 64, 192, 1202>>
SpendFields == <<"cv", "anchor", "nullifier", "rk", "proof", "auth">>
SpendSizes  == <<32, 32, 32, 32, 192, 64>>
OutFields   == <<"cv", "cmu", "ek", "enc", "outc", "proof">>
OutSizes    == <<32, 32, 32, 580, 80, 192>>
CatFields(fs, d) == Cat([i \in 1..Len(fs) |-> d[fs[i]]])
SerJS(j)     == CatFields(JSFields, j)
SerSpend(s)  == CatFields(SpendFields, s)
SerOutput(o) == CatFields(OutFields, o)

JSTail(t, pub, sig) == IF t.js = <<>> THEN <<>> ELSE pub \o sig
SerSprout(t) ==
  t.version \o SerVec(SerTxIn, t.ins) \o SerVec(SerTxOut, t.outs) \o t.lock
  \o (IF t.version = <<2, 0, 0, 0>>
      THEN SerVec(SerJS, t.js) \o JSTail(t, FromOpt(t.pub), FromOpt(t.sig)) ELSE <<>>)
OwHeader == <<3, 0, 0, 128>>   OwGroup == <<112, 130, 196, 3>>
SapHeader == <<4, 0, 0, 128>>  SapGroup == <<133, 32, 47, 137>>
SerOverwinter(t) ==
  OwHeader \o OwGroup \o SerVec(SerTxIn, t.ins) \o SerVec(SerTxOut, t.outs) \o t.lock \o t.expiry
  \o SerVec(SerJS, t.js) \o JSTail(t, FromOpt(t.pub), FromOpt(t.sig))
HasShielded(t) == t.spends # <<>> \/ t.souts # <<>>
SerSapling(t) ==
  SapHeader \o SapGroup \o SerVec(SerTxIn, t.ins) \o SerVec(SerTxOut, t.outs) \o t.lock \o t.expiry
  \o t.vb \o SerVec(SerSpend, t.spends) \o SerVec(SerOutput, t.souts)
  \o SerVec(SerJS, t.js) \o JSTail(t, FromOpt(t.pub), FromOpt(t.sig))
  \o (IF HasShielded(t) THEN FromOpt(t.bsig) ELSE <<>>)

SerDTxIn(i)  == i.op \o i.seq
SerDTxOut(o) == o.value \o o.version \o VarBytes(o.script)
SerDWit(w)   == w.value \o w.height \o w.index \o VarBytes(w.stack \o w.redeem)
DPrefixBody(t) == SerVec(SerDTxIn, t.ins) \o SerVec(SerDTxOut, t.outs) \o t.lock \o t.expiry
SerDecred(t) == t.version \o DPrefixBody(t) \o SerVec(SerDWit, t.wits)
DPrefix(t)   == Take(t.version, 2) \o <<1, 0>> \o DPrefixBody(t)
DWitness(t)  == Take(t.version, 2) \o <<2, 0>> \o SerVec(SerDWit, t.wits)
DWitSigning(t) == Take(t.version, 2) \o <<3, 0>> \o SerVec(LAMBDA w : VarBytes(w.stack \o w.redeem), t.wits)

Ser(k, d) ==
  CASE k = "outpoint"  -> d.txid \o d.index
    [] k = "txin"      -> SerTxIn(d)
    [] k = "txout"     -> SerTxOut(d)
    [] k = "witem"     -> VarBytes(d.item)
    [] k = "witness"   -> SerWitness(d.stack)
    [] k = "tx"        -> SerTx(d)
    [] k \in {"sproof", "gproof"} -> Cat(d.parts)
    [] k \in {"sjs", "gjs"} -> SerJS(d)
    [] k = "gspend"    -> SerSpend(d)
    [] k = "goutput"   -> SerOutput(d)
    [] k = "sprout"    -> SerSprout(d)
    [] k = "overwinter" -> SerOverwinter(d)
    [] k = "sapling"   -> SerSapling(d)
    [] k = "doutpoint" -> d.txid \o d.index \o d.tree
    [] k = "dtxin"     -> SerDTxIn(d)
    [] k = "dtxout"    -> SerDTxOut(d)
    [] k = "dwitness"  -> SerDWit(d)
    [] k = "decred"    -> SerDecred(d)

TxKinds == {"tx", "sprout", "overwinter", "sapling", "decred"}
DecredKinds == {"doutpoint", "dtxin", "dtxout", "dwitness", "decred"}
ZcashKinds  == {"sproof", "gproof", "sjs", "gjs", "gspend", "goutput", "sprout", "overwinter", "sapling"}
NetsOf(k) ==
  CASE k = "sprout" -> SproutNets [] k = "overwinter" -> OverwinterNets [] k = "sapling" -> SaplingNets
    [] k \in DecredKinds -> DecredNets
    [] k \in ZcashKinds -> ZcashNets
    [] OTHER -> NetNames

\* --------------------------------------------------------------------- validity
\* Each rule that fails is named; "any:" rules mark combinations the properties leave open.
R(name, bad) == IF bad THEN {name} ELSE {}
Sizes(ss, parts) == \A i \in 1..Len(ss) : Len(parts[i]) = ss[i]
MAXSIG == 1650
MAXTX  == 100000
EXPIRYMAX == 499999999
TxInFaults(i)  == R("outpoint size", Len(i.op) # 36) \cup R("sequence size", Len(i.seq) # 4)
                  \cup R("script sig too long", Len(i.stack) + Len(i.redeem) > MAXSIG)
TxOutFaults(o) == R("value size", Len(o.value) # 8)
JSFaults(sizes, j) == R("joinsplit field size", \E i \in 1..10 : Len(j[JSFields[i]]) # sizes[i])
                  \cup R("both public values", ~AllZero(j.vold) /\ ~AllZero(j.vnew))
SpendFaults(s)  == R("spend field size", \E i \in 1..6 : Len(s[SpendFields[i]]) # SpendSizes[i])
OutputFaults(o) == R("output field size", \E i \in 1..6 : Len(o[OutFields[i]]) # OutSizes[i])
All(f(_), s) == UNION {f(s[i]) : i \in 1..Len(s)}
JSPart(t, sizes) ==
  R("too many joinsplits", Len(t.js) > 5) \cup All(LAMBDA j : JSFaults(sizes, j), t.js)
  \cup (IF t.js = <<>>
        THEN R("any:unused joinsplit key", t.pub # None /\ Len(FromOpt(t.pub)) # 32)
             \cup R("any:unused joinsplit sig", t.sig # None /\ Len(FromOpt(t.sig)) # 64)
        ELSE R("joinsplit key size", Len(FromOpt(t.pub)) # 32))
JSSig(t, k) == IF t.js = <<>> THEN {}
               ELSE IF k = "sprout" /\ t.sig = <<<<>>>> THEN {"any:unsigned joinsplits"}
               ELSE R("joinsplit sig size", Len(FromOpt(t.sig)) # 64)
Expiry(e) == R("expiry size", Len(e) # 4) \cup R("expiry too high", Len(e) = 4 /\ LEInt(e) > EXPIRYMAX)

Faults0(k, d) ==
  CASE k = "outpoint" -> R("txid size", Len(d.txid) # 32) \cup R("index size", Len(d.index) # 4)
    [] k = "doutpoint" -> R("txid size", Len(d.txid) # 32) \cup R("index size", Len(d.index) # 4)
                          \cup R("tree size", Len(d.tree) # 1)
    [] k = "txin"   -> TxInFaults(d)
    [] k = "txout"  -> TxOutFaults(d)
    [] k = "dtxin"  -> R("outpoint size", Len(d.op) # 37) \cup R("sequence size", Len(d.seq) # 4)
    [] k = "dtxout" -> R("value size", Len(d.value) # 8) \cup R("version size", Len(d.version) # 2)
    [] k = "dwitness" -> R("value size", Len(d.value) # 8) \cup R("height size", Len(d.height) # 4)
                         \cup R("index size", Len(d.index) # 4)
                         \cup R("any:long decred script", Len(d.stack) + Len(d.redeem) > MAXSIG)
    [] k \in {"witem", "witness"} -> {}
    [] k = "sproof" -> R("proof size", ~Sizes(SProofSizes, d.parts))
    [] k = "gproof" -> R("proof size", ~Sizes(GProofSizes, d.parts))
    [] k = "sjs"    -> JSFaults(SJSSizes, d)
    [] k = "gjs"    -> JSFaults(GJSSizes, d)
    [] k = "gspend" -> SpendFaults(d)
    [] k = "goutput" -> OutputFaults(d)
    [] k = "tx" ->
         R("version size", Len(d.version) # 4) \cup R("lock time size", Len(d.lock) # 4)
         \cup R("wrong marker", d.flag # None /\ FromOpt(d.flag) # SegwitFlag)
         \cup R("witness without marker", d.wits # <<>> /\ d.flag = None)
         \cup R("witness count", d.wits # <<>> /\ Len(d.wits) # Len(d.ins))
         \cup R("no inputs", d.ins = <<>>) \cup R("no outputs", d.outs = <<>>)
         \cup All(TxInFaults, d.ins) \cup All(TxOutFaults, d.outs)
    [] k = "sprout" ->
         R("version size", Len(d.version) # 4) \cup R("lock time size", Len(d.lock) # 4)
         \cup R("sprout version", d.version \notin {<<1, 0, 0, 0>>, <<2, 0, 0, 0>>})
         \cup R("joinsplits in version 1", d.version = <<1, 0, 0, 0>> /\ d.js # <<>>)
         \cup R("no inputs in version 1", d.version = <<1, 0, 0, 0>> /\ d.ins = <<>>)
         \cup All(TxInFaults, d.ins) \cup All(TxOutFaults, d.outs)
         \cup JSPart(d, SJSSizes) \cup JSSig(d, k)
         \cup R("too large", Len(SerSprout(d)) > MAXTX)
    [] k = "overwinter" ->
         R("lock time size", Len(d.lock) # 4) \cup Expiry(d.expiry)
         \cup R("no inputs", d.ins = <<>> /\ d.js = <<>>)
         \cup All(TxInFaults, d.ins) \cup All(TxOutFaults, d.outs)
         \cup JSPart(d, SJSSizes) \cup JSSig(d, k)
         \cup R("too large", Len(SerOverwinter(d)) > MAXTX)
    [] k = "sapling" ->
         R("lock time size", Len(d.lock) # 4) \cup Expiry(d.expiry)
         \cup R("value balance size", Len(d.vb) # 8)
         \cup R("value balance without shielded parts", ~HasShielded(d) /\ ~AllZero(d.vb))
         \cup R("no inputs", d.ins = <<>> /\ d.js = <<>> /\ d.spends = <<>>)
         \cup All(TxInFaults, d.ins) \cup All(TxOutFaults, d.outs)
         \cup All(SpendFaults, d.spends) \cup All(OutputFaults, d.souts)
         \cup JSPart(d, GJSSizes) \cup JSSig(d, k)
         \cup (IF HasShielded(d) THEN R("binding sig size", Len(FromOpt(d.bsig)) # 64)
               ELSE R("any:unused binding sig", d.bsig # None /\ Len(FromOpt(d.bsig)) # 64))
         \cup R("too large", Len(SerSapling(d)) > MAXTX)
    [] k = "decred" ->
         R("version size", Len(d.version) # 4) \cup R("lock time size", Len(d.lock) # 4)
         \cup R("expiry size", Len(d.expiry) # 4)
         \cup R("no inputs", d.ins = <<>>) \cup R("no outputs", d.outs = <<>>)
         \cup R("any:decred witness count", d.wits # <<>> /\ Len(d.wits) # Len(d.ins))
         \cup All(LAMBDA i : R("txin size", Len(i.op) # 37 \/ Len(i.seq) # 4), d.ins)
         \cup All(LAMBDA o : R("txout size", Len(o.value) # 8 \/ Len(o.version) # 2), d.outs)
         \cup All(LAMBDA w : R("witness size", Len(w.value) # 8 \/ Len(w.height) # 4 \/ Len(w.index) # 4)
                             \cup R("any:long decred script", Len(w.stack) + Len(w.redeem) > MAXSIG), d.wits)
         \cup R("too large", Len(SerDecred(d)) > MAXTX)

OpenFaults == {"any:unused joinsplit key", "any:unused joinsplit sig", "any:unsigned joinsplits",
               "any:long decred script", "any:unused binding sig", "any:decred witness count"}
Faults(net, k, d) == R("wrong network", net \notin NetsOf(k)) \cup Faults0(k, d)
\* "yes" must be built, "no" must be refused, "open" either
Verdict(fs) == IF fs \subseteq OpenFaults THEN (IF fs = {} THEN "yes" ELSE "open") ELSE "no"

\* What the object shows afterwards: unused optional parts are dropped.
Shown(k, d) ==
  CASE k = "sprout" -> IF d.version = <<1, 0, 0, 0>> \/ d.js = <<>> THEN [d EXCEPT !.pub = None, !.sig = None] ELSE d
    [] k = "overwinter" -> IF d.js = <<>> THEN [d EXCEPT !.pub = None, !.sig = None] ELSE d
    [] k = "sapling" -> LET e == IF d.js = <<>> THEN [d EXCEPT !.pub = None, !.sig = None] ELSE d IN
                        IF HasShielded(d) THEN e ELSE [e EXCEPT !.bsig = None]
    [] OTHER -> d

\* ---------------------------------------------------------------------- ids
NoIds == [le |-> <<>>, be |-> <<>>, wle |-> None, wbe |-> None]
Ids(net, k, d) ==
  CASE k = "tx" ->
        LET i == Hash256(net, SerTxNoWit(d)) w == Hash256(net, SerTx(d)) IN
        [le |-> i, be |-> Rev(i), wle |-> IF d.flag = None THEN None ELSE Opt(w),
         wbe |-> IF d.flag = None THEN None ELSE Opt(Rev(w))]
    [] k \in {"sprout", "overwinter", "sapling"} ->
        LET i == DSHA(Ser(k, d)) IN [le |-> i, be |-> Rev(i), wle |-> None, wbe |-> None]
    [] k = "decred" -> LET i == BLAKE256(DPrefix(d)) IN [le |-> i, be |-> Rev(i), wle |-> None, wbe |-> None]
    [] OTHER -> NoIds

\* joinsplit-derived values (Zcash protocol 5.4.1.4 and 4.2)
PersHSig == <<90, 99, 97, 115, 104, 67, 111, 109, 112, 117, 116, 101, 104, 83, 105, 103>>
HSig(j, pub) == BLAKE2b(j.seed \o j.nulls \o pub, 32, PersHSig)
Primary(j, pub) == j.anchor \o j.nulls \o j.comms \o j.vold \o j.vnew \o HSig(j, pub) \o j.macs
HSigs(k, d) == IF k \in {"sprout", "overwinter", "sapling"} /\ d.js # <<>>
               THEN MapSeq(LAMBDA j : HSig(j, FromOpt(d.pub)), d.js) ELSE <<>>
Primaries(k, d) == IF k \in {"sprout", "overwinter", "sapling"} /\ d.js # <<>>
               THEN MapSeq(LAMBDA j : Primary(j, FromOpt(d.pub)), d.js) ELSE <<>>

\* ------------------------------------------------------------------- parsing
\* A parser takes (net, b, p) and yields [ok, v, p, canon]: next position, and whether
\* every count and length read was in shortest form.
PBad == [ok |-> FALSE, v |-> <<>>, p |-> 0, canon |-> TRUE]
PGood(v, p, c) == [ok |-> TRUE, v |-> v, p |-> p, canon |-> c]

PFix(b, p, n) == IF p + n - 1 > Len(b) THEN PBad ELSE PGood(SubSeq(b, p, p + n - 1), p + n, TRUE)
PCS(net, b, p) ==
  LET c == CSAt(b, p) IN
  IF ~c.ok \/ (StrictCompact(net) /\ ~c.canon) THEN PBad ELSE PGood(c.n, p + c.len, c.canon)
PVarBytes(net, b, p) ==
  LET c == PCS(net, b, p) IN
  IF ~c.ok THEN PBad
  ELSE IF c.v > Len(b) \/ c.p + c.v - 1 > Len(b) THEN PBad
  ELSE PGood(SubSeq(b, c.p, c.p + c.v - 1), c.p + c.v, c.canon)

PTxIn(net, b, p) ==
  IF p + 35 > Len(b) THEN PBad
  ELSE LET s == PVarBytes(net, b, p + 36) IN
    IF ~s.ok THEN PBad
    ELSE IF s.p + 3 > Len(b) \/ Len(s.v) > MAXSIG THEN PBad
    ELSE LET o == SubSeq(b, p, p + 35) sp == SplitScriptSig(net, o, s.v) IN
      PGood([op |-> o, stack |-> sp.stack, redeem |-> sp.redeem, seq |-> SubSeq(b, s.p, s.p + 3)], s.p + 4, s.canon)

MAXPARSEOUT == 251
PTxOut(net, b, p) ==
  IF p + 7 > Len(b) THEN PBad
  ELSE LET s == PVarBytes(net, b, p + 8) IN
    IF ~s.ok THEN PBad
    ELSE IF Len(s.v) > MAXPARSEOUT THEN PBad
    ELSE PGood([value |-> SubSeq(b, p, p + 7), script |-> s.v], s.p, s.canon)
PDTxOut(net, b, p) ==
  IF p + 9 > Len(b) THEN PBad
  ELSE LET s == PVarBytes(net, b, p + 10) IN
    IF ~s.ok THEN PBad
    ELSE IF Len(s.v) > MAXPARSEOUT THEN PBad
    ELSE PGood([value |-> SubSeq(b, p, p + 7), version |-> SubSeq(b, p + 8, p + 9), script |-> s.v], s.p, s.canon)

\* n items, each by parser f(net, b, p)
RECURSIVE PRep(_, _, _, _, _, _, _)
PRep(f(_, _, _), net, b, p, n, acc, c) ==
  IF n = 0 THEN PGood(acc, p, c)
  ELSE LET x == f(net, b, p) IN
       IF ~x.ok THEN PBad ELSE PRep(f, net, b, x.p, n - 1, Append(acc, x.v), c /\ x.canon)
PN(f(_, _, _), net, b, p, n) == IF n > Len(b) THEN PBad ELSE PRep(f, net, b, p, n, <<>>, TRUE)
PVec(f(_, _, _), net, b, p) ==
  LET c == PCS(net, b, p) IN
  IF ~c.ok THEN PBad
  ELSE LET x == PN(f, net, b, c.p, c.v) IN [x EXCEPT !.canon = @ /\ c.canon]
PWitness(net, b, p) == PVec(PVarBytes, net, b, p)

\* record of fixed-size fields
Offsets(sizes) == Tup([i \in 1..Len(sizes) |-> FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(sizes, 1, i - 1))])
SumOf(sizes) == FoldLeft(LAMBDA a, x : a + x, 0, sizes)
Cut(b, p, sizes) == LET o == Offsets(sizes) IN
  Tup([i \in 1..Len(sizes) |-> SubSeq(b, p + o[i], p + o[i] + sizes[i] - 1)])
PRec(fs, sizes, b, p) ==
  IF p + SumOf(sizes) - 1 > Len(b) THEN PBad
  ELSE LET c == Cut(b, p, sizes) IN
       PGood([f \in {fs[i] : i \in 1..Len(fs)} |-> c[CHOOSE i \in 1..Len(fs) : fs[i] = f]], p + SumOf(sizes), TRUE)
JSCheck(x) == IF x.ok /\ ~AllZero(x.v.vold) /\ ~AllZero(x.v.vnew) THEN PBad ELSE x
PSJS(net, b, p) == JSCheck(PRec(JSFields, SJSSizes, b, p))
PGJS(net, b, p) == JSCheck(PRec(JSFields, GJSSizes, b, p))
PSpend(net, b, p) == PRec(SpendFields, SpendSizes, b, p)
POutput(net, b, p) == PRec(OutFields, OutSizes, b, p)

\* whole transactions: must consume everything, all counts shortest
Whole(b, x) == IF x.ok /\ x.p = Len(b) + 1 /\ x.canon THEN x ELSE PBad

PTx(net, b) ==
  LET seg == Len(b) >= 6 /\ SubSeq(b, 5, 6) = SegwitFlag
      i == PVec(PTxIn, net, b, IF seg THEN 7 ELSE 5) IN
  IF Len(b) < 4 \/ ~i.ok THEN PBad
  ELSE LET o == PVec(PTxOut, net, b, i.p) IN
  IF ~o.ok THEN PBad
  ELSE LET w == IF seg /\ Len(b) - (o.p - 1) > 4 THEN PN(PWitness, net, b, o.p, Len(i.v))
                ELSE PGood(<<>>, o.p, TRUE) IN
  IF ~w.ok THEN PBad
  ELSE LET l == PFix(b, w.p, 4) IN
  IF ~l.ok THEN PBad
  ELSE PGood([version |-> SubSeq(b, 1, 4), flag |-> IF seg THEN Opt(SegwitFlag) ELSE None,
              ins |-> i.v, outs |-> o.v, wits |-> w.v, lock |-> l.v],
             l.p, i.canon /\ o.canon /\ w.canon)

\* joinsplit vector with key and signature
PJSPart(f(_, _, _), net, b, p) ==
  LET j == PVec(f, net, b, p) IN
  IF ~j.ok THEN PBad
  ELSE IF j.v = <<>> THEN PGood([js |-> <<>>, pub |-> None, sig |-> None], j.p, j.canon)
  ELSE LET k == PFix(b, j.p, 96) IN
    IF ~k.ok THEN PBad
    ELSE PGood([js |-> j.v, pub |-> Opt(SubSeq(k.v, 1, 32)), sig |-> Opt(SubSeq(k.v, 33, 96))], k.p, j.canon)

PSprout(net, b) ==
  LET i == PVec(PTxIn, net, b, 5) IN
  IF Len(b) < 4 \/ ~i.ok THEN PBad
  ELSE LET o == PVec(PTxOut, net, b, i.p) IN
  IF ~o.ok THEN PBad
  ELSE LET l == PFix(b, o.p, 4) IN
  IF ~l.ok THEN PBad
  ELSE LET v == SubSeq(b, 1, 4)
           j == IF v = <<2, 0, 0, 0>> THEN PJSPart(PSJS, net, b, l.p)
                ELSE PGood([js |-> <<>>, pub |-> None, sig |-> None], l.p, TRUE) IN
  IF ~j.ok THEN PBad
  ELSE PGood([version |-> v, ins |-> i.v, outs |-> o.v, lock |-> l.v,
              js |-> j.v.js, pub |-> j.v.pub, sig |-> j.v.sig], j.p, i.canon /\ o.canon /\ j.canon)

POverwinter(net, b) ==
  IF Len(b) < 8 \/ SubSeq(b, 1, 8) # OwHeader \o OwGroup THEN PBad
  ELSE LET i == PVec(PTxIn, net, b, 9) IN
  IF ~i.ok THEN PBad
  ELSE LET o == PVec(PTxOut, net, b, i.p) IN
  IF ~o.ok THEN PBad
  ELSE LET l == PFix(b, o.p, 8) IN
  IF ~l.ok THEN PBad
  ELSE LET j == PJSPart(PSJS, net, b, l.p) IN
  IF ~j.ok THEN PBad
  ELSE PGood([ins |-> i.v, outs |-> o.v, lock |-> SubSeq(l.v, 1, 4), expiry |-> SubSeq(l.v, 5, 8),
              js |-> j.v.js, pub |-> j.v.pub, sig |-> j.v.sig], j.p, i.canon /\ o.canon /\ j.canon)

PSapling(net, b) ==
  IF Len(b) < 8 \/ SubSeq(b, 1, 8) # SapHeader \o SapGroup THEN PBad
  ELSE LET i == PVec(PTxIn, net, b, 9) IN
  IF ~i.ok THEN PBad
  ELSE LET o == PVec(PTxOut, net, b, i.p) IN
  IF ~o.ok THEN PBad
  ELSE LET l == PFix(b, o.p, 16) IN
  IF ~l.ok THEN PBad
  ELSE LET s == PVec(PSpend, net, b, l.p) IN
  IF ~s.ok THEN PBad
  ELSE LET u == PVec(POutput, net, b, s.p) IN
  IF ~u.ok THEN PBad
  ELSE LET j == PJSPart(PGJS, net, b, u.p) IN
  IF ~j.ok THEN PBad
  ELSE LET g == IF s.v # <<>> \/ u.v # <<>> THEN PFix(b, j.p, 64) ELSE PGood(<<>>, j.p, TRUE) IN
  IF ~g.ok THEN PBad
  ELSE PGood([ins |-> i.v, outs |-> o.v, lock |-> SubSeq(l.v, 1, 4), expiry |-> SubSeq(l.v, 5, 8),
              vb |-> SubSeq(l.v, 9, 16), spends |-> s.v, souts |-> u.v,
              js |-> j.v.js, pub |-> j.v.pub, sig |-> j.v.sig,
              bsig |-> IF g.v = <<>> THEN None ELSE Opt(g.v)],
             g.p, i.canon /\ o.canon /\ s.canon /\ u.canon /\ j.canon)

POutpoint(b, n) == IF Len(b) < n THEN PBad ELSE PGood(<<>>, n + 1, TRUE)
\* Parse object kind k from the front of b (whole b for transactions), valid or not.
Parse0(net, k, b) ==
  CASE k = "outpoint" -> PRec(<<"txid", "index">>, <<32, 4>>, b, 1)
    [] k = "doutpoint" -> PRec(<<"txid", "index", "tree">>, <<32, 4, 1>>, b, 1)
    [] k = "txin"   -> PTxIn(net, b, 1)
    [] k = "txout"  -> PTxOut(net, b, 1)
    [] k = "dtxin"  -> PRec(<<"op", "seq">>, <<37, 4>>, b, 1)
    [] k = "dtxout" -> PDTxOut(net, b, 1)
    [] k = "witem"  -> LET x == PVarBytes(net, b, 1) IN IF x.ok THEN [x EXCEPT !.v = [item |-> x.v]] ELSE x
    [] k = "witness" -> LET x == PWitness(net, b, 1) IN IF x.ok THEN [x EXCEPT !.v = [stack |-> x.v]] ELSE x
    [] k = "sproof" -> IF Len(b) < 296 THEN PBad ELSE PGood([parts |-> Cut(b, 1, SProofSizes)], 297, TRUE)
    [] k = "gproof" -> IF Len(b) < 192 THEN PBad ELSE PGood([parts |-> Cut(b, 1, GProofSizes)], 193, TRUE)
    [] k = "sjs"    -> PSJS(net, b, 1)
    [] k = "gjs"    -> PGJS(net, b, 1)
    [] k = "gspend" -> PSpend(net, b, 1)
    [] k = "goutput" -> POutput(net, b, 1)
    [] k = "tx"     -> Whole(b, PTx(net, b))
    [] k = "sprout" -> Whole(b, PSprout(net, b))
    [] k = "overwinter" -> Whole(b, POverwinter(net, b))
    [] k = "sapling" -> Whole(b, PSapling(net, b))
    [] OTHER -> PBad     \* Decred transactions and witnesses have no parser
\* ... and valid.  A part read with a longer-than-shortest length is left open.
Parse(net, k, b) ==
  LET x == Parse0(net, k, b) IN
  IF ~x.ok THEN [st |-> "no", d |-> <<>>]
  ELSE LET v == Verdict(Faults(net, k, x.v)) IN
       IF v = "no" THEN [st |-> "no", d |-> <<>>]
       ELSE IF ~x.canon THEN [st |-> "open", d |-> x.v] ELSE [st |-> v, d |-> x.v]
=============================================================================
