------------------------------ MODULE Sighash ------------------------------
(* Signature digests.  For every format the digest is Hash(preimage); the preimage
   is given byte for byte.  Arguments of a signing request:
     idx     0-based input index        base   "all" | "single" | "none"
     acp     BOOLEAN                    script bytes (length-prefixed except Decred)
     value   <<>> | <<bytes>>           js     BOOLEAN: sign for the shielded parts
   Committed(..) is an independent description of what a digest promises to
   commit to, as an abstract record rather than a byte layout.               *)
EXTENDS Wire

TypeByte(a) == (CASE a.base = "all" -> 1 [] a.base = "none" -> 2 [] a.base = "single" -> 3) + (IF a.acp THEN 128 ELSE 0)
Type4(a) == <<TypeByte(a), 0, 0, 0>>
ForkType4(net, a) == <<TypeByte(a) + 64>> \o LE(Net(net).fork, 3)
IsFork(net) == Net(net).fork >= 0

FFs == Rep(255, 8)
BlankOut == [value |-> FFs, script |-> <<>>]
One(t, a) == t[a.idx + 1]

\* ---- original algorithm: the transaction is edited, then serialised ----------------
EditIns(ins, a) ==
  LET all == Tup([j \in 1..Len(ins) |->
        [op |-> ins[j].op,
         script |-> IF j = a.idx + 1 THEN a.script ELSE <<0>>,
         seq |-> IF a.base = "single" /\ j # a.idx + 1 THEN <<0, 0, 0, 0>> ELSE ins[j].seq]])
  IN IF a.acp THEN <<all[a.idx + 1]>> ELSE all
EditOuts(outs, a, blank(_)) ==
  IF a.base = "all" THEN outs
  ELSE Tup([j \in 1..(a.idx + 1) |-> IF j = a.idx + 1 THEN outs[j] ELSE blank(outs[j])])
SerEdIn(i) == i.op \o i.script \o i.seq
LegacyBody(t, a) == SerVec(SerEdIn, EditIns(t.ins, a))
                    \o SerVec(SerTxOut, EditOuts(t.outs, a, LAMBDA o : BlankOut)) \o t.lock
LegacyPre(t, a) == t.version \o LegacyBody(t, a) \o Type4(a)
SproutPre(t, a) ==
  t.version \o LegacyBody(t, a)
  \o (IF t.version = <<2, 0, 0, 0>>
      THEN SerVec(SerJS, t.js) \o (IF t.js = <<>> THEN <<>> ELSE FromOpt(t.pub)) ELSE <<>>)
  \o Type4(a)

\* ---- BIP143 and its descendants: hashed components ---------------------------------
Prevouts(t) == CatMap(LAMBDA i : i.op, t.ins)
Seqs(t)     == CatMap(LAMBDA i : i.seq, t.ins)
Outs(t, a)  == IF a.base = "all" THEN CatMap(SerTxOut, t.outs) ELSE SerTxOut(One(t.outs, a))
ZH == Zeros(32)
H143(x, b) == DSHA(b)
\* h(personalisation, bytes) is the component hash.
HPrev(h(_, _), t, a) == IF a.acp THEN ZH ELSE h("prev", Prevouts(t))
HSeq(h(_, _), t, a)  == IF a.acp \/ a.base # "all" THEN ZH ELSE h("seq", Seqs(t))
HOuts(h(_, _), t, a) == IF a.base = "none" THEN ZH ELSE h("out", Outs(t, a))
Bip143Pre(t, a, ty) ==
  LET i == One(t.ins, a) IN
  t.version \o HPrev(H143, t, a) \o HSeq(H143, t, a) \o i.op \o a.script \o FromOpt(a.value) \o i.seq
  \o HOuts(H143, t, a) \o t.lock \o ty

Txt == [prev |-> <<90, 99, 97, 115, 104, 80, 114, 101, 118, 111, 117, 116, 72, 97, 115, 104>>,
        seq  |-> <<90, 99, 97, 115, 104, 83, 101, 113, 117, 101, 110, 99, 72, 97, 115, 104>>,
        out  |-> <<90, 99, 97, 115, 104, 79, 117, 116, 112, 117, 116, 115, 72, 97, 115, 104>>,
        js   |-> <<90, 99, 97, 115, 104, 74, 83, 112, 108, 105, 116, 115, 72, 97, 115, 104>>,
        ss   |-> <<90, 99, 97, 115, 104, 83, 83, 112, 101, 110, 100, 115, 72, 97, 115, 104>>,
        so   |-> <<90, 99, 97, 115, 104, 83, 79, 117, 116, 112, 117, 116, 72, 97, 115, 104>>,
        sig  |-> <<90, 99, 97, 115, 104, 83, 105, 103, 72, 97, 115, 104>>]
HZ(x, b) == BLAKE2b(b, 32, Txt[x])
HJS(t) == IF t.js = <<>> THEN ZH ELSE HZ("js", CatMap(SerJS, t.js) \o FromOpt(t.pub))
SpendNoSig(s) == s.cv \o s.anchor \o s.nullifier \o s.rk \o s.proof
HSpends(t) == IF t.spends = <<>> THEN ZH ELSE HZ("ss", CatMap(SpendNoSig, t.spends))
HSOuts(t)  == IF t.souts = <<>> THEN ZH ELSE HZ("so", CatMap(SerOutput, t.souts))
SignedIn(t, a) == IF a.js THEN <<>>
                  ELSE LET i == One(t.ins, a) IN i.op \o a.script \o FromOpt(a.value) \o i.seq
Zip143Pre(t, a) ==
  OwHeader \o OwGroup \o HPrev(HZ, t, a) \o HSeq(HZ, t, a) \o HOuts(HZ, t, a) \o HJS(t)
  \o t.lock \o t.expiry \o Type4(a) \o SignedIn(t, a)
Zip243Pre(t, a) ==
  SapHeader \o SapGroup \o HPrev(HZ, t, a) \o HSeq(HZ, t, a) \o HOuts(HZ, t, a) \o HJS(t)
  \o HSpends(t) \o HSOuts(t) \o t.lock \o t.expiry \o t.vb \o Type4(a) \o SignedIn(t, a)
OwBranch  == <<25, 27, 168, 91>>
SapBranch == <<187, 9, 184, 118>>

\* ---- Decred ---------------------------------------------------------------------------
DEdit(t, a) ==
  LET ins == Tup([j \in 1..Len(t.ins) |->
               IF a.base = "single" /\ j # a.idx + 1 THEN [t.ins[j] EXCEPT !.seq = <<0, 0, 0, 0>>] ELSE t.ins[j]])
      wits == Tup([j \in 1..Len(t.wits) |->
               [t.wits[j] EXCEPT !.stack = IF j = a.idx + 1 THEN a.script ELSE <<>>, !.redeem = <<>>]])
      outs == EditOuts(t.outs, a, LAMBDA o : [o EXCEPT !.value = FFs, !.script = <<>>])
  IN [t EXCEPT !.ins = IF a.acp THEN <<ins[a.idx + 1]>> ELSE ins,
               !.wits = IF a.acp THEN <<wits[a.idx + 1]>> ELSE wits, !.outs = outs]
DecredPre(t, a) == LET e == DEdit(t, a) IN Type4(a) \o BLAKE256(DPrefix(e)) \o BLAKE256(DWitSigning(e))

\* ---- which scheme, what is refused, what is left open -----------------------------------
Scheme(net, k, d) ==
  CASE k = "tx" -> IF IsFork(net) THEN "fork" ELSE IF d.flag # None THEN "bip143" ELSE "legacy"
    [] OTHER -> k

WellPrefixed(s) == LET c == CSAt(s, 1) IN c.ok /\ c.canon /\ c.n = Len(s) - c.len /\ c.n <= MAXSIG
NoOutput(d, a) == a.base = "single" /\ a.idx >= Len(d.outs)
BadValue(a) == a.value = None \/ Len(FromOpt(a.value)) # 8

\* "yes": digest defined; "no": must be refused; "open": not settled by the properties
SigVerdict(net, k, d, a) ==
  LET s == Scheme(net, k, d) inRange == a.idx >= 0 /\ a.idx < Len(d.ins) IN
  \* 'none' exists for the Zcash formats with hashed components only
  CASE a.base = "none" /\ s \notin {"overwinter", "sapling"} -> "no"
    [] s \in {"bip143", "fork"} ->
         IF ~inRange THEN "open" ELSE IF BadValue(a) \/ NoOutput(d, a) THEN "no" ELSE "yes"
    [] s = "legacy" ->
         IF ~inRange THEN "open" ELSE IF NoOutput(d, a) THEN "no"
         ELSE IF ~WellPrefixed(a.script) THEN "open" ELSE "yes"
    [] s = "sprout" ->
         IF d.js # <<>> /\ (a.base = "single" \/ a.acp) THEN "no"
         ELSE IF ~inRange THEN "open" ELSE IF NoOutput(d, a) THEN "no"
         ELSE IF ~WellPrefixed(a.script) \/ Len(SproutPre(d, a)) > MAXTX THEN "open" ELSE "yes"
    [] s \in {"overwinter", "sapling"} ->
         IF a.js THEN (IF a.acp THEN "no" ELSE IF a.base = "single" THEN "open" ELSE "yes")
         ELSE IF ~inRange THEN "open" ELSE IF NoOutput(d, a) THEN "no"
         ELSE IF BadValue(a) THEN "open" ELSE "yes"
    [] s = "decred" ->
         IF Len(d.wits) # Len(d.ins) \/ ~inRange \/ Len(a.script) > MAXSIG THEN "open"
         ELSE IF NoOutput(d, a) THEN "no" ELSE "yes"

Digest(net, k, d, a) ==
  LET s == Scheme(net, k, d) IN
  CASE s = "legacy" -> DSHA(LegacyPre(d, a))
    [] s = "bip143" -> DSHA(Bip143Pre(d, a, Type4(a)))
    [] s = "fork"   -> DSHA(Bip143Pre(d, a, ForkType4(net, a)))
    [] s = "sprout" -> DSHA(SproutPre(d, a))
    [] s = "overwinter" -> BLAKE2b(Zip143Pre(d, a), 32, Txt.sig \o OwBranch)
    [] s = "sapling" -> BLAKE2b(Zip243Pre(d, a), 32, Txt.sig \o SapBranch)
    [] s = "decred" -> BLAKE256(DecredPre(d, a))

\* ---- what a digest commits to ------------------------------------------------------------
\* A record; two requests of one format have the same digest exactly if these agree.
Committed(net, k, d, a) ==
  LET s == Scheme(net, k, d)
      positional == s \in {"legacy", "sprout", "decred"}
      \* an empty script for the signed input is what every other input carries too: nothing tells which one is signed
      blank == positional /\ ~a.acp /\ a.base = "all" /\ a.script = (IF s = "decred" THEN <<>> ELSE <<0>>)
      sg == IF a.js THEN <<>> ELSE IF blank THEN <<a.script>> ELSE <<One(d.ins, a).op, One(d.ins, a).seq, a.script>>
      shieldedParts ==
        CASE s = "sprout" -> <<d.js, IF d.js = <<>> THEN <<>> ELSE d.pub>>
          [] s = "overwinter" -> <<d.js, IF d.js = <<>> THEN <<>> ELSE d.pub>>
          [] s = "sapling" -> <<d.js, IF d.js = <<>> THEN <<>> ELSE d.pub,
                                MapSeq(LAMBDA x : [x EXCEPT !.auth = <<>>], d.spends), d.souts, d.vb>>
          [] OTHER -> <<>>
  IN [scheme |-> s,
      version |-> IF s = "decred" THEN SubSeq(d.version, 1, 2)
                  ELSE IF s \in {"overwinter", "sapling"} THEN <<>> ELSE d.version,
      lock |-> d.lock,
      expiry |-> IF s \in {"overwinter", "sapling", "decred"} THEN d.expiry ELSE <<>>,
      base |-> a.base, acp |-> a.acp, fork |-> IF s = "fork" THEN Net(net).fork ELSE 0,
      signed |-> sg,
      value |-> IF s \in {"legacy", "sprout", "decred"} \/ a.js THEN <<>> ELSE a.value,
      inputs |-> IF a.acp THEN <<>> ELSE MapSeq(LAMBDA i : i.op, d.ins),
      position |-> IF positional /\ ~blank /\ (~a.acp \/ a.base = "single") /\ ~a.js
                   THEN (IF a.acp THEN <<"outs", a.idx>> ELSE <<"ins", a.idx>>) ELSE <<>>,
      sequences |-> IF a.acp \/ a.base # "all" THEN <<>> ELSE MapSeq(LAMBDA i : i.seq, d.ins),
      outputs |-> CASE a.base = "all" -> d.outs [] a.base = "single" -> <<One(d.outs, a)>> [] a.base = "none" -> <<>>,
      blanked |-> IF s = "decred" /\ a.base = "single"
                  THEN MapSeq(LAMBDA o : o.version, SubSeq(d.outs, 1, a.idx)) ELSE <<>>,
      shielded |-> shieldedParts]
=============================================================================
