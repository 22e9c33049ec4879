-------------------------------- MODULE Api --------------------------------
(* The library as a state machine: its state is the selected network and the
   objects that exist; every action is one public call.  Step gives, for an
   observed call, the names of the clauses of the specification that the observed
   outcome breaks, and the next state.  Verdicts are total: nothing stops at the
   first failure.                                                            *)
EXTENDS Sighash, Standard, Blake

\* ---- outcome of a call whose acceptance is settled ("yes" / "no") or open ----------
Ok(e) == e.st = "ok"
StV(v, e) ==
  IF v = "yes" THEN (IF e.st = "refused" THEN {"refused"} ELSE IF e.st = "weird" THEN {"weird"} ELSE {})
  ELSE IF v = "no" THEN (IF e.st = "ok" THEN {"accepted"} ELSE IF e.st = "weird" THEN {"weird"} ELSE {})
  ELSE {}
IsD(net) == net \in DecredNets
C(name, bad) == IF bad THEN {name} ELSE {}
\* v: settled? then clauses if accepted
Jd(v, e, cs) == StV(v, e) \cup (IF v # "no" /\ Ok(e) THEN cs ELSE {})
YesNo(b) == IF b THEN "yes" ELSE "no"

\* an expected result Good(x)/Bad against a result field
JRes(x, e, f) == StV(YesNo(x.ok), e) \cup (IF x.ok /\ Ok(e) THEN C("value", e.r[f] # x.v) ELSE {})
JRes3(x, e, f) == StV(x.st, e) \cup (IF x.st = "yes" /\ Ok(e) THEN C("value", e.r[f] # x.v) ELSE {})

\* ---- views of objects -----------------------------------------------------------
Extra(net, k, d, x) ==
  IF "na" \in DOMAIN x THEN FALSE ELSE
  CASE k = "txin" -> x.sig = d.stack \o d.redeem /\ x.p2sh = (d.redeem # <<>>)
    [] k = "tx"   -> x.nw = SerTxNoWit(d) /\ x.isw = (d.flag # None)
    [] k = "dtxout" -> x.len = Len(d.script)
    [] k = "dwitness" -> x.sig = d.stack \o d.redeem /\ x.len = Len(d.stack) + Len(d.redeem)
    [] k = "decred" -> x.prefix = DPrefix(d) /\ x.witness = DWitness(d) /\ x.wsign = DWitSigning(d)
    [] k = "overwinter" -> x.header = OwHeader /\ x.group = OwGroup /\ ~x.isw
    [] k = "sapling" -> x.header = SapHeader /\ x.group = SapGroup /\ ~x.isw
    [] OTHER -> TRUE
DHashes(d, x) == "na" \notin DOMAIN x /\ x.ph = BLAKE256(DPrefix(d)) /\ x.wh = BLAKE256(DWitness(d)) /\ x.wsh = BLAKE256(DWitSigning(d))
JView(net, k, d, v) ==
  IF v.k # k THEN {"kind"}
  ELSE C("bytes", v.bytes # Ser(k, d)) \cup C("agree", ~v.agree) \cup C("fields", v.d # Shown(k, d))
       \cup C("ids", v.ids # Ids(net, k, d)) \cup C("hsigs", v.hs # HSigs(k, d))
       \cup C("pinputs", v.pr # Primaries(k, d)) \cup C("extra", ~Extra(net, k, d, v.x))
       \cup (IF k = "decred" THEN C("dhashes", ~DHashes(d, v.x)) ELSE {})
JObj(net, k, d, e) == Jd(Verdict(Faults(net, k, d)), e, JView(net, k, d, e.r.v))

\* xs: the variants asked for; f(x): the bytes of variant x; r.acc: accepted, r.same: accepted and read back
Idx(s) == Tup([j \in 1..Len(s) |-> j])
JMany(net, k, xs, f(_), r) ==
  LET acc == {r.acc[j] : j \in 1..Len(r.acc)} same == {r.same[j] : j \in 1..Len(r.same)}
      st == Tup([j \in 1..Len(xs) |-> Parse(net, k, f(xs[j])).st])
  IN C("accepted", \E j \in 1..Len(xs) : st[j] = "no" /\ xs[j] \in acc)
     \cup C("refused", \E j \in 1..Len(xs) : st[j] = "yes" /\ xs[j] \notin acc)
     \cup C("bytes", \E j \in 1..Len(xs) : st[j] = "yes" /\ xs[j] \in acc /\ xs[j] \notin same)

\* ---- fields replaced -----------------------------------------------------------------
OptFields == {"flag", "pub", "sig", "bsig"}
Override(k, d, fs, d2) ==
  LET s == Shown(k, d) IN
  [f \in DOMAIN s |-> IF f \in fs /\ ~(f \in OptFields /\ d2[f] = <<>>) THEN d2[f] ELSE s[f]]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Src(net, k, d, src) == IF src \in {"parse", "hexparse"} THEN Parse(net, k, Ser(k, d)).d ELSE d
SrcV(net, k, d, src) ==
  LET v == Verdict(Faults(net, k, d)) IN
  IF v # "yes" THEN v ELSE IF src \in {"parse", "hexparse"} THEN Parse(net, k, Ser(k, d)).st ELSE "yes"

\* ---- digests ---------------------------------------------------------------------------
SigV(net, k, d, a) == IF k = "tx" /\ IsD(net) THEN "open" ELSE IF a.via = "seg" /\ Scheme(net, k, d) # "bip143" THEN "open" ELSE SigVerdict(net, k, d, a)
JSig(net, k, d, a, o) ==
  LET v == SigV(net, k, d, a) IN
  IF v = "yes" THEN (IF o.st # "ok" THEN {"refused"} ELSE C("digest", o.dg # Digest(net, k, d, a)))
  ELSE IF v = "no" THEN C("accepted", o.st = "ok") ELSE {}
JSigs(net, k, d, reqs, ds) == UNION {JSig(net, k, d, reqs[i], ds[i]) : i \in 1..Len(reqs)}

\* ---- fees ---------------------------------------------------------------------------------
Vals(s) == SSum(MapSeq(LAMBDA x : SPos(x.value), s))
Fee(k, d, ins) ==
  LET given == SSum(MapSeq(LAMBDA v : SInt(v.neg, v.mag), ins)) outs == Vals(d.outs) IN
  CASE k = "tx" -> SSub(given, outs)
    [] k = "decred" -> SSub(Vals(d.wits), outs)
    [] OTHER ->
       LET old == SSum(MapSeq(LAMBDA j : SPos(j.vold), d.js)) new == SSum(MapSeq(LAMBDA j : SPos(j.vnew), d.js))
           vb == IF k = "sapling" THEN TwosToS(d.vb) ELSE Int0
       IN SSub(SAdd(SAdd(given, new), vb), SAdd(outs, old))

\* ---- integers --------------------------------------------------------------------------------
NonNeg(v) == ~v.neg
Minimal(m) == IF Norm(m) = <<>> THEN <<0>> ELSE Norm(m)
ScriptNum(m) == LET n == Minimal(m) IN IF n[Len(n)] >= 128 THEN n \o <<0>> ELSE n
JInt(a, e) ==
  CASE a.f = "i2le" -> Jd(IF a.v.neg THEN "open" ELSE "yes", e, IF a.v.neg THEN {} ELSE C("value", e.r.v # Minimal(a.v.mag)))
    [] a.f = "i2be" -> Jd(IF a.v.neg THEN "open" ELSE "yes", e, IF a.v.neg THEN {} ELSE C("value", e.r.v # Rev(Minimal(a.v.mag))))
    [] a.f = "i2le_script" ->
         LET v == IF a.v.neg \/ Len(a.v.mag) > 518 THEN "open" ELSE "yes" IN
         Jd(v, e, IF v = "open" THEN {} ELSE C("value", e.r.v # ToHexText(ScriptNum(a.v.mag))))
    [] a.f = "i2le_padded" -> LET ok == NonNeg(a.v) /\ Fits(a.v.mag, a.w) IN
         Jd(YesNo(ok), e, C("value", e.r.v # PadTo(a.v.mag, a.w)))
    [] a.f = "i2be_padded" -> LET ok == NonNeg(a.v) /\ Fits(a.v.mag, a.w) IN
         Jd(YesNo(ok), e, C("value", e.r.v # Rev(PadTo(a.v.mag, a.w))))
    [] a.f = "le2i" -> Jd("yes", e, C("value", e.r.v # (IF a.signed THEN TwosToS(a.b) ELSE SPos(a.b))))
    [] a.f = "be2i" -> Jd("yes", e, C("value", e.r.v # (IF a.signed THEN TwosToS(Rev(a.b)) ELSE SPos(Rev(a.b)))))
    [] a.f = "flip" -> Jd("yes", e, C("value", e.r.v # Rev(a.b)))

JVarEnc(a, e) ==
  LET ok == NonNeg(a.v) /\ CSMagOk(a.v.mag) IN
  Jd(YesNo(ok), e, C("bytes", e.r.bytes # CSMag(a.v.mag)) \cup C("value", e.r.number # SPos(a.v.mag))
                   \cup C("copy", e.r.copy # CSMag(a.v.mag) \/ e.r.cnumber # SPos(a.v.mag)) \cup C("frozen", ~e.r.frozen))
JVarDec(net, a, e) ==
  LET c == CSAt(a.b, 1) IN
  Jd(YesNo(c.ok /\ (StrictCompact(net) => c.canon)), e,
     C("bytes", e.r.bytes # Take(a.b, c.len)) \cup C("value", e.r.number # SPos(c.mag))
     \cup C("copy", e.r.cnumber # SPos(c.mag)) \cup C("frozen", ~e.r.frozen))

\* ---- script text ------------------------------------------------------------------------------
JSer(net, a, e) == JRes(SerText(net, a.toks), e, "b")
JDeser(net, a, e) ==
  LET d == Deser(net, a.b) IN
  IF d.ok /\ d.v = <<DataTok(<<>>)>> THEN {}
  ELSE Jd(YesNo(d.ok), e, C("value", e.r.toks # d.v))

\* ---- builders --------------------------------------------------------------------------------
I4(v) == v.neg = FALSE /\ Fits(v.mag, 4)
I8(v) == v.neg = FALSE /\ Fits(v.mag, 8)
OutKind(net) == IF IsD(net) THEN "dtxout" ELSE "txout"
OutD(net, v8, s) == IF IsD(net) THEN [value |-> v8, version |-> <<0, 0>>, script |-> s] ELSE [value |-> v8, script |-> s]
\* an output of value v and script s (Good/Bad)
JOutput(net, v, s, e) ==
  LET ok == I8(v) /\ s.ok IN
  Jd(YesNo(ok), e, JView(net, OutKind(net), OutD(net, PadTo(v.mag, 8), s.v), e.r.v))
InD(net, op, stack, redeem, seq) ==
  IF IsD(net) THEN [op |-> op, seq |-> seq] ELSE [op |-> op, stack |-> stack, redeem |-> redeem, seq |-> seq]
JInput(net, op, stack, redeem, seq, e) ==
  LET d == InD(net, Ser(IF IsD(net) THEN "doutpoint" ELSE "outpoint", op), stack, redeem, IF I4(seq) THEN PadTo(seq.mag, 4) ELSE <<>>)
      k == IF IsD(net) THEN "dtxin" ELSE "txin" IN
  Jd(Verdict(Faults(net, k, d)), e, JView(net, k, d, e.r.v))
JOutpoint(net, txid, index, tree, e) ==
  LET k == IF IsD(net) THEN "doutpoint" ELSE "outpoint"
      ix == IF I4(index) THEN PadTo(index.mag, 4) ELSE <<>>
      t == IF tree = <<>> THEN <<0>> ELSE IF tree[1].neg \/ ~Fits(tree[1].mag, 1) THEN <<>> ELSE PadTo(tree[1].mag, 1)
      d == IF IsD(net) THEN [txid |-> txid, index |-> ix, tree |-> t] ELSE [txid |-> txid, index |-> ix]
  IN Jd(Verdict(Faults(net, k, d)), e, JView(net, k, d, e.r.v))
OpReturn(data) == <<106>> \o Push(data)
Wv(net, wit) == wit /\ ~Net(net).segwit
OpenIf(b, cs) == IF b THEN {} ELSE cs

\* which transaction make_tx yields, from the parts given
N4(v) == IF I4(v) THEN PadTo(v.mag, 4) ELSE <<>>
N4o(o) == IF o = <<>> THEN <<>> ELSE N4(o[1])
VecO(o) == IF o = <<>> THEN <<>> ELSE o[1]
TxParts(net, a) ==
  LET f == Family(net) IN
  CASE f = "decred" ->
         [k |-> "decred", open |-> a.expiry = <<>>,
          d |-> [version |-> N4(a.version), ins |-> a.ins, outs |-> a.outs, lock |-> N4(a.lock),
                 expiry |-> N4o(a.expiry), wits |-> VecO(a.wits)]]
    [] f = "sprout" /\ a.js # <<>> ->
         [k |-> "sprout", open |-> a.wits # <<>>,
          d |-> [version |-> N4(a.version), ins |-> a.ins, outs |-> a.outs, lock |-> N4(a.lock),
                 js |-> VecO(a.js), pub |-> a.pub, sig |-> a.sig]]
    [] f = "overwinter" ->
         [k |-> "overwinter", open |-> a.expiry = <<>> \/ a.wits # <<>>,
          d |-> [ins |-> a.ins, outs |-> a.outs, lock |-> N4(a.lock), expiry |-> N4o(a.expiry),
                 js |-> VecO(a.js), pub |-> a.pub, sig |-> a.sig]]
    [] f = "sapling" ->
         LET vb == IF a.vb = <<>> THEN Int0 ELSE SInt(a.vb[1].neg, a.vb[1].mag) IN
         [k |-> "sapling", open |-> a.expiry = <<>> \/ a.wits # <<>>,
          d |-> [ins |-> a.ins, outs |-> a.outs, lock |-> N4(a.lock), expiry |-> N4o(a.expiry),
                 vb |-> IF SFitsTwos(vb, 8) THEN SToTwos(vb, 8) ELSE <<>>,
                 spends |-> VecO(a.spends), souts |-> VecO(a.souts),
                 js |-> VecO(a.js), pub |-> a.pub, sig |-> a.sig, bsig |-> a.bsig]]
    [] OTHER ->
         [k |-> "tx", open |-> f = "sprout" /\ a.wits # <<>>,
          d |-> [version |-> N4(a.version), flag |-> IF a.wits = <<>> THEN None ELSE Opt(SegwitFlag),
                 ins |-> a.ins, outs |-> a.outs, wits |-> VecO(a.wits), lock |-> N4(a.lock)]]
\* the parts themselves must exist on the current network
OpOf(net, op) == ("tree" \in DOMAIN op) = IsD(net)
PartsExist(net, a) ==
  /\ (a.ik = "dtxin" /\ a.ins # <<>>) => IsD(net)
  /\ (a.ok = "dtxout" /\ a.outs # <<>>) => IsD(net)
  /\ (a.ik = "txin" /\ a.ins # <<>>) => ~IsD(net)
  /\ (a.ok = "txout" /\ a.outs # <<>>) => ~IsD(net)
  /\ net \in NetsOf("gspend") \/ \A f \in {"js", "spends", "souts"} \cap DOMAIN a : a[f] = <<>> \/ a[f][1] = <<>>
JTx(net, p, e) == LET v == Verdict(Faults(net, p.k, p.d)) IN
                  IF p.open THEN {} ELSE Jd(v, e, JView(net, p.k, p.d, e.r.v))
\* simplified interface: defaults spelled out
OrInt(o, n) == IF o = <<>> THEN SPos(Mag(n)) ELSE o[1]
SLegacy(net, a) ==
  [version |-> OrInt(a.version, 2), lock |-> OrInt(a.lock, 0), ins |-> a.ins, outs |-> a.outs,
   expiry |-> Opt(OrInt(a.expiry, 0)), vb |-> <<>>, spends |-> <<>>, souts |-> <<>>, wits |-> <<>>, bsig |-> <<>>,
   js |-> IF a.js = <<>> THEN <<<<>>>> ELSE a.js, pub |-> a.pub, sig |-> a.sig]
SWitness(a) ==
  [version |-> OrInt(a.version, 2), lock |-> OrInt(a.lock, 0), ins |-> a.ins, outs |-> a.outs,
   expiry |-> <<>>, vb |-> <<>>, spends |-> <<>>, souts |-> <<>>, bsig |-> <<>>, js |-> <<>>, pub |-> <<>>, sig |-> <<>>,
   wits |-> <<Tup([i \in 1..Len(a.ins) |-> <<>>])>>]

JTb(net, a, e) ==
  LET f == a.f IN
  CASE f = "sh_script_pubkey" -> JRes(ShScriptOfBytes(net, a.script, a.wit), e, "b")
    [] f = "sh_output_script" -> JRes(ShScript(net, a.toks, a.wit), e, "b")
    [] f = "p2sh_output_script" -> JRes(ShScript(net, a.toks, FALSE), e, "b")
    [] f = "p2wsh_output_script" -> JRes(ShScript(net, a.toks, TRUE), e, "b")
    [] f = "pkh_output_script" -> JRes(PkhScript(net, a.pub, a.wit), e, "b")
    [] f = "p2pkh_output_script" -> JRes(PkhScript(net, a.pub, FALSE), e, "b")
    [] f = "p2wpkh_output_script" -> JRes(PkhScript(net, a.pub, TRUE), e, "b")
    [] f = "sh_output" -> JOutput(net, a.value, ShScript(net, a.toks, a.wit), e)
    [] f = "p2sh_output" -> JOutput(net, a.value, ShScript(net, a.toks, FALSE), e)
    [] f = "p2wsh_output" -> JOutput(net, a.value, ShScript(net, a.toks, TRUE), e)
    [] f = "pkh_output" -> JOutput(net, a.value, PkhScript(net, a.pub, a.wit), e)
    [] f = "p2pkh_output" -> JOutput(net, a.value, PkhScript(net, a.pub, FALSE), e)
    [] f = "p2wpkh_output" -> JOutput(net, a.value, PkhScript(net, a.pub, TRUE), e)
    [] f = "op_return_output" ->
         JOutput(net, Int0, IF Len(a.data) > 77 THEN Bad ELSE Good(OpReturn(a.data)), e)
    [] f = "empty_witness" -> Jd("yes", e, JView(net, "witness", [stack |-> <<>>], e.r.v))
    [] f = "witness_stack_item" -> Jd("yes", e, JView(net, "witem", [item |-> a.data], e.r.v))
    [] f = "witness" -> Jd("yes", e, JView(net, "witness", [stack |-> a.items], e.r.v))
    [] f = "decred_witness" -> JObj(net, "dwitness", a.d, e)
    [] f = "outpoint" -> JOutpoint(net, a.txid, a.index, a.tree, e)
    [] f = "script_sig" ->
         LET r == SerText(net, a.redeem) s == SerText(net, a.stack) IN
         JRes(IF ~r.ok \/ ~s.ok THEN Bad
              ELSE IF r.v = <<>> THEN Good(s.v)
              ELSE IF Len(r.v) > MAXPUSH THEN Bad ELSE Good(s.v \o Push(r.v)), e, "b")
    [] f \in {"legacy_input", "witness_input", "decred_input", "s_input"} /\ ~OpOf(net, a.op) -> StV("no", e)
    [] f = "legacy_input" -> JInput(net, a.op, a.stack, a.redeem, a.seq, e)
    [] f = "witness_input" -> OpenIf(~Net(net).segwit /\ ~IsD(net), JInput(net, a.op, <<>>, <<>>, a.seq, e))
    [] f = "decred_input" -> IF IsD(net) THEN JInput(net, a.op, <<>>, <<>>, a.seq, e) ELSE StV("no", e)
    [] f = "length_prepend" -> Jd("yes", e, C("value", e.r.b # VarBytes(a.data)))
    [] f \in {"tx", "s_legacy_tx", "s_witness_tx"} /\ ~PartsExist(net, a) -> StV("no", e)
    [] f = "tx" -> JTx(net, TxParts(net, a), e)
    [] f = "s_output" ->
         LET s == ToScript(net, a.addr) IN
         IF s.st = "open" THEN {} ELSE JOutput(net, a.value, IF s.st = "yes" THEN Good(s.v) ELSE Bad, e)
    [] f = "s_outpoint" ->
         IF Blank(a.txid) THEN {} ELSE IF ~IsHexText(a.txid) THEN StV("no", e) ELSE JOutpoint(net, Rev(FromHexText(a.txid)), a.index, a.tree, e)
    [] f = "s_input" -> JInput(net, a.op, <<>>, <<>>,
                               IF a.seq = <<>> THEN SPos(<<254, 255, 255, 255>>) ELSE a.seq[1], e)
    [] f = "s_legacy_tx" -> JTx(net, TxParts(net, SLegacy(net, a)), e)
    [] f = "s_witness_tx" ->
         IF IsD(net) THEN StV("no", e)
         ELSE IF Family(net) # "bitcoin" \/ ~Net(net).segwit THEN {}
         ELSE JTx(net, TxParts(net, SWitness(a)), e)

\* ---- addresses --------------------------------------------------------------------------------
JAddr(net, a, e) ==
  LET f == a.f IN
  CASE f = "parse" -> JRes3(ParseRaw(net, a.t), e, "b")
    [] f = "to_script" -> JRes3(ToScript(net, a.t), e, "b")
    [] f = "from_script" -> JRes(FromScript(net, a.b, a.cash), e, "t")
    [] f = "parse_hash" -> JRes3(ParseHash(net, a.t), e, "b")
    [] f = "sh" -> JRes(MakeSh(net, a.toks, a.wit, a.cash), e, "t")
    [] f = "p2sh" -> JRes(MakeSh(net, a.toks, FALSE, TRUE), e, "t")
    [] f = "p2wsh" -> JRes(MakeSh(net, a.toks, TRUE, TRUE), e, "t")
    [] f = "legacy_p2sh" -> JRes(MakeSh(net, a.toks, FALSE, FALSE), e, "t")
    [] f = "pkh" -> JRes(MakePkh(net, a.pub, a.wit, a.cash), e, "t")
    [] f = "p2pkh" -> JRes(MakePkh(net, a.pub, FALSE, TRUE), e, "t")
    [] f = "p2wpkh" -> JRes(MakePkh(net, a.pub, TRUE, TRUE), e, "t")
    [] f = "legacy_p2pkh" -> JRes(MakePkh(net, a.pub, FALSE, FALSE), e, "t")
JB58(net, a, e) ==
  CASE a.f = "enc" -> Jd("yes", e, C("value", e.r.t # (IF a.check THEN B58CheckEnc(net, a.b) ELSE B58Enc(a.b))))
    [] a.f = "dec" -> JRes(IF a.check THEN B58CheckDec(net, a.t) ELSE B58Dec(a.t), e, "b")
    [] a.f = "enc_check" -> Jd("yes", e, C("value", e.r.t # B58CheckEnc(net, a.b)))
    [] a.f = "dec_check" -> JRes(B58CheckDec(net, a.t), e, "b")
    [] a.f = "has" -> Jd("yes", e, C("value", e.r.y # B58CheckDec(net, a.t).ok))
JBech(net, a, e) ==
  \* for a human-readable part of the caller's
  IF a.f = "seg_enc" THEN OpenIf(~HrpOk(a.hrp), JRes(SegEnc(a.hrp, a.ver, a.b), e, "t"))
  ELSE IF a.f = "seg_dec" THEN OpenIf(~HrpOk(a.hrp), JRes(SegDec(a.hrp, a.t), e, "b"))
  ELSE IF a.f = "b32_enc" THEN
    LET t == BEncode(a.hrp, a.b) IN OpenIf(~HrpOk(a.hrp) \/ Len(t) > 90, Jd("yes", e, C("value", e.r.t # t)))
  ELSE IF a.f = "b32_dec" THEN
    LET x == BDecode(a.t) IN StV(YesNo(x.ok), e) \cup (IF x.ok /\ Ok(e) THEN C("value", e.r.h # x.h \/ e.r.b # x.d) ELSE {})
  ELSE IF a.f = "enc" THEN (IF Len(a.b) < 2 THEN {} ELSE JRes(Bech32Enc(net, a.b[1], Drop(a.b, 2)), e, "t"))
  ELSE JRes(Bech32Dec(net, a.t), e, "b")
JCash(net, a, e) ==
  IF a.f = "enc" THEN OpenIf(a.b = <<>> /\ HasCashaddr(net), JRes(CashaddrEnc(net, a.b), e, "t"))
  ELSE IF UpperCash(net, a.t) THEN {}
  ELSE LET x == CashaddrDec(net, a.t) IN
       IF x.ok /\ x.v = <<>> THEN {} ELSE JRes(x, e, "b")

\* BLAKE2 with every parameter: those in a.give as given, the others at their defaults
B2Of(f) == IF f = "blake2b_all" THEN 64 ELSE 32
B2Given(a) == LET d == B2Plain(B2Of(a.f)) IN [x \in DOMAIN d |-> IF \E i \in 1..Len(a.give) : a.give[i] = x THEN a.p[x] ELSE d[x]]
JBlake2(a, e) ==
  LET bits == B2Of(a.f) p == B2Given(a) IN
  IF B2Valid(bits, p) THEN Jd("yes", e, C("value", e.r.b # Blake2(bits, p, a.b))) ELSE C("value", Ok(e))
JHash(net, a, e) ==
  IF a.f \in {"blake2b_all", "blake2s_all"} THEN JBlake2(a, e) ELSE
  LET b == a.b
      x == CASE a.f = "sha256" -> SHA256(b) [] a.f = "rmd160" -> RIPEMD160(b)
             [] a.f = "hash160" -> Hash160(net, b) [] a.f = "hash256" -> Hash256(net, b)
             [] a.f \in {"blake256", "blake_hash"} -> BLAKE256(b)
             [] a.f = "blake2b" -> BLAKE2b(b, IF a.size = <<>> THEN 64 ELSE a.size[1], IF a.person = <<>> THEN <<>> ELSE a.person[1])
             [] a.f = "blake2s" -> BLAKE2s(b, IF a.size = <<>> THEN 32 ELSE a.size[1], IF a.person = <<>> THEN <<>> ELSE a.person[1])
             [] a.f = "blake" -> Blake(a.size[1], IF a.person = <<>> THEN <<>> ELSE a.person[1], b)
  IN Jd("yes", e, C("value", e.r.b # x))

JStd(net, a, e) ==
  IF a.f = "push_only" THEN
    LET p == PushOnly(net, a.b) IN
    IF p = "open" THEN {} ELSE IF p = "unparsable" THEN C("value", Ok(e) /\ e.r.y)
    ELSE Jd("yes", e, C("value", e.r.y # (p = "yes")))
  ELSE IF a.f \in {"out_type", "op_return"} THEN      \* one output
    LET v == IF a.f = "out_type" THEN OutType(net, a.o.script) ELSE IF IsCarrierLike(a.o) THEN Carrier(net, a.o) ELSE "no" IN
    IF v = "open" \/ Verdict(Faults(net, "txout", a.o)) # "yes" THEN {} ELSE Jd("yes", e, C("value", e.r.y # (v = "yes")))
  ELSE
    LET d == Src(net, "tx", a.d, a.src)
        v == CASE a.f = "tx" -> TxVerdict(net, d) [] a.f = "outs" -> OutsVerdict(net, d)
               [] a.f = "small" -> YesNo(SizeSmall(d))
               [] a.f = "final" -> YesNo(Final(d, a.height.mag, a.time.mag)) IN
    IF SrcV(net, "tx", a.d, a.src) # "yes" \/ v = "open" THEN {}
    ELSE Jd("yes", e, C("value", e.r.y # (v = "yes")))

\* ---- containers ------------------------------------------------------------------------------------
Wrongs == {"none", "int", "str", "list", "float", "object", "tuple", "vint", "vbytes", "vnone", "vstr"}
SliceIdx(i, n) == IF i < 0 THEN Max2(0, i + n) ELSE Min2(i, n)
PySlice(b, s) ==
  LET n == Len(b) lo == SliceIdx(s.lo, n) hi == SliceIdx(s.hi, n)
      m == IF hi <= lo THEN 0 ELSE (hi - lo + s.st - 1) \div s.st
  IN Tup([i \in 1..m |-> b[lo + (i - 1) * s.st + 1]])
JBxObs(b, a, r) ==
  C("bytes", r.bytes # b \/ r.conv # b) \cup C("len", r.len # Len(b)) \cup C("iter", r.iter # b)
  \cup C("hex", r.hex # ToHexText(b) \/ r.fmt # ToHexText(b) \/ r.fmtx # UpperT(ToHexText(b)))
  \cup C("index", r.idx # b \o Rev(b) \/ r.over)
  \cup C("slice", \E i \in 1..Len(a.slices) : r.slices[i] # PySlice(b, a.slices[i]))

\* ---- one step ----------------------------------------------------------------------------------------
Put(heap, h, x) == [y \in DOMAIN heap \cup {h} |-> IF y = h THEN x ELSE heap[y]]
Out(c, net, heap) == [c |-> c, net |-> net, heap |-> heap]
NewObj(net, heap, a) ==
  IF a.src = "copyof" THEN heap[a.h0].d
  ELSE IF a.src = "copy" THEN Override(a.k, a.d0, DOMAIN a.d, a.d)
  ELSE Src(net, a.k, a.d, a.src)
Step1(net, heap, e) ==
  LET a == e.a J(c) == Out(c, net, heap) IN
  CASE e.op = "select" ->
         LET ok == IsNet(a.name) IN
         Out(Jd(YesNo(ok), e, C("name", e.r.name # a.name)), IF ok THEN a.name ELSE net, heap)
    [] e.op = "reset" -> Out({}, net, <<>>)
    [] e.op = "int" -> J(JInt(a, e))
    [] e.op = "vi_enc" -> J(JVarEnc(a, e))
    [] e.op = "vi_dec" -> J(JVarDec(net, a, e))
    [] e.op = "ser" -> J(JSer(net, a, e))
    [] e.op = "deser" -> J(JDeser(net, a, e))
    [] e.op = "mk" -> J(IF a.wrong # <<>> \/ a.swap # <<>> \/ a.vswap # <<>> THEN StV("no", e) ELSE JObj(net, a.k, a.d, e))
    [] e.op = "parse" -> LET p == Parse(net, a.k, a.b) IN
                         J(StV(p.st, e) \cup (IF p.st = "yes" /\ Ok(e) THEN JView(net, a.k, p.d, e.r.v) ELSE {}))
    \* one encoding cut or damaged in many places: which of them are accepted, and do those read back?
    [] e.op = "cuts" -> J(Jd("yes", e, JMany(net, a.k, a.ns, LAMBDA n : Take(a.b, n), e.r)))
    [] e.op = "flips" -> J(Jd("yes", e, JMany(net, a.k, Idx(a.at), LAMBDA j : [a.b EXCEPT ![a.at[j][1]] = a.at[j][2]], e.r)))
    [] e.op = "copy" ->
         IF SrcV(net, a.k, a.d, a.src) # "yes" THEN J({})
         ELSE LET d1 == Src(net, a.k, a.d, a.src) d3 == Override(a.k, d1, SetOf(a.fields), a.d2) IN
              J(Jd(Verdict(Faults(net, a.k, d3)), e,
                   JView(net, a.k, d3, e.r.v) \cup C("changed", ~e.r.same \/ JView(net, a.k, d1, e.r.o) # {})))
    [] e.op = "sig" ->
         IF SrcV(net, a.k, a.d, a.src) # "yes" THEN J({})
         ELSE J(Jd("yes", e, JSigs(net, a.k, Src(net, a.k, a.d, a.src), a.reqs, e.r.ds) \cup C("changed", ~e.r.kept)))
    [] e.op = "pair" ->
         IF SrcV(net, a.k, a.d1, "mk") # "yes" \/ SrcV(net, a.k, a.d2, "mk") # "yes" THEN J({})
         ELSE LET v1 == SigV(net, a.k, a.d1, a.a1) v2 == SigV(net, a.k, a.d2, a.a2) IN
              J(IF v1 # "yes" \/ v2 # "yes" THEN {}
                ELSE IF ~Ok(e) \/ e.r.s1 # "ok" \/ e.r.s2 # "ok" THEN {"refused"}
                ELSE LET same == Committed(net, a.k, a.d1, a.a1) = Committed(net, a.k, a.d2, a.a2) IN
                     C("uncommitted", ~same /\ e.r.eq) \cup C("overcommitted", same /\ ~e.r.eq))
    [] e.op = "fee" ->
         IF SrcV(net, a.k, a.d, a.src) # "yes" THEN J({})
         ELSE J(Jd("yes", e, C("value", e.r.fee # Fee(a.k, a.d, a.ins))))
    [] e.op = "tb" -> J(JTb(net, a, e))
    [] e.op = "addr" -> J(JAddr(net, a, e))
    [] e.op = "b58" -> J(JB58(net, a, e))
    [] e.op = "bech32" -> J(JBech(net, a, e))
    [] e.op = "cash" -> J(JCash(net, a, e))
    [] e.op \in {"hash", "oracle"} -> J(JHash(net, a, e))
    [] e.op = "std" -> J(JStd(net, a, e))
    \* streaming hashers
    [] e.op = "bl_new" -> IF a.size \notin {224, 256, 384, 512} THEN J(StV("no", e)) ELSE Out(StV("yes", e), net, Put(heap, a.h, HNew(a.size, IF a.salt = <<>> THEN <<>> ELSE a.salt[1])))
    [] e.op = "bl_salt" ->          \* before the first byte only; the last salt given counts
         LET s == heap[a.h] IN
         IF s.phase = "lost" THEN J({}) ELSE IF s.phase # "new" THEN J(StV("no", e))
         ELSE Out(StV("yes", e), net, Put(heap, a.h, HSalt(s, a.b)))
    [] e.op = "bl_update" ->
         LET s == heap[a.h] IN
         IF s.phase \in {"done", "lost"} THEN Out({}, net, Put(heap, a.h, [s EXCEPT !.phase = "lost"]))
         ELSE Out(StV("yes", e), net, Put(heap, a.h, HUpdate(s, IF a.text THEN Utf8(a.b) ELSE a.b)))
    [] e.op = "bl_final" ->
         LET s == heap[a.h] s1 == IF s.phase = "done" \/ a.b = <<>> THEN s ELSE HUpdate(s, IF a.text THEN Utf8(a.b) ELSE a.b)
             s2 == HFinal(s1) IN
         IF s.phase = "lost" THEN J({})
         ELSE Out(Jd("yes", e, C("value", e.r.b # s2.out)), net, Put(heap, a.h, s2))
    \* byte containers
    [] e.op = "bx_new" ->
         LET b == CASE a.how = "empty" -> Good(<<>>)
                    [] a.how = "bytes" -> Good(a.b)
                    [] a.how = "hex" -> IF IsHexText(a.t) THEN Good(FromHexText(a.t)) ELSE Bad
                    [] a.how = "obj" -> Good(Ser(a.k, a.d)) IN
         IF a.how = "hex" /\ Blank(a.t) THEN J({})
         ELSE IF ~b.ok THEN J(StV("no", e))
         ELSE Out(Jd("yes", e, C("value", e.r.b # b.v)), net, Put(heap, a.h, [b |-> b.v, frozen |-> a.how = "obj"]))
    [] e.op = "bx_append" ->
         LET s == heap[a.h] x == IF a.form = "handle" THEN heap[a.h2].b ELSE a.b
             v == YesNo(~s.frozen /\ a.form \notin Wrongs) IN
         IF v = "no" THEN J(StV(v, e))
         ELSE Out(Jd(v, e, C("value", e.r.b # s.b \o x)), net, Put(heap, a.h, [s EXCEPT !.b = @ \o x]))
    [] e.op = "bx_obs" -> J(Jd("yes", e, JBxObs(heap[a.h].b, a, e.r)))
    [] e.op = "bx_find" ->
         LET x == IF a.form = "handle" THEN heap[a.h2].b ELSE a.b IN
         J(Jd("yes", e, C("find", e.r.i # FindSub(heap[a.h].b, x) - 1)))
    [] e.op = "bx_eq" ->
         LET x == IF a.form = "handle" THEN heap[a.h2].b ELSE a.b same == x = heap[a.h].b IN
         J(IF a.form \in Wrongs THEN StV("no", e)
           ELSE Jd("yes", e, C("eq", e.r.eq # same) \cup C("ne", e.r.ne = same)))
    [] e.op = "bx_ne" -> J(StV("no", e))
    \* objects that live through a session
    [] e.op = "new" ->
         LET d == NewObj(net, heap, a) IN
         Out(JObj(net, a.k, d, e), net, Put(heap, a.h, [k |-> a.k, d |-> Shown(a.k, d), net |-> net]))
    \* assigning, deleting and extending are refused outright; other attacks must merely have no effect (obs)
    [] e.op = "attack" -> J(C("frozen", e.st = "ok" /\ e.r.part /\ e.r.eff = "ok" /\ a.how \in {"set", "setnew", "del", "append", "setbytes"}))
    [] e.op = "obs" ->
         \* Decred's derived parts are Decred objects: they may be unavailable while another network is selected
         LET o == heap[a.h] c == Jd("yes", e, JView(o.net, o.k, o.d, e.r.v)) IN
         J(IF o.k = "decred" /\ ~IsD(net) /\ Ok(e) THEN IF "na" \in DOMAIN e.r.v.x THEN c \ {"extra", "dhashes"} ELSE c ELSE c)
    [] e.op = "hsig" ->
         \* the type the object belongs to may not exist on the network now selected: no digest, or the same digest
         LET o == heap[a.h] c == JSigs(net, o.k, o.d, a.reqs, e.r.ds) IN
         J(Jd("yes", e, IF net \in NetsOf(o.k) THEN c ELSE c \ {"refused"}))
    [] e.op = "hcopy" ->
         LET o == heap[a.h] d3 == Override(o.k, o.d, SetOf(a.fields), a.d2) v == Verdict(Faults(net, o.k, d3)) IN
         IF v = "no" THEN J(StV("no", e))
         ELSE Out(Jd(v, e, JView(net, o.k, d3, e.r.v)), net, Put(heap, a.h2, [k |-> o.k, d |-> Shown(o.k, d3), net |-> net]))

\* Programs of several clients that overlap -- in turns, one in the middle of another's call, after one that was abandoned in
\* the middle, or all at once -- each answer what they would answer alone.
RECURSIVE Alone(_, _, _, _, _)
Alone(net, heap, prog, rs, n) ==
  IF prog = <<>> THEN {}
  ELSE LET s == Step1(net, heap, [op |-> prog[1].op, a |-> prog[1].a, st |-> rs[1].st, r |-> rs[1].r, n |-> n]) IN
       s.c \cup Alone(net, s.heap, Drop(prog, 1), Drop(rs, 1), n)
Step(net, heap, e) ==
  IF e.op # "weave" THEN Step1(net, heap, e)
  ELSE Out(Jd("yes", e, UNION {Alone(net, <<>>, e.a.progs[p], e.r.rs[p], e.n) : p \in 1..Len(e.a.progs)}), net, heap)

\* the network in force afterwards, the caller's buffers as they were, and independence of the past (a fresh process's answer)
Always(net2, e) == C("net", e.n # net2) \cup C("args", "args" \in DOMAIN e)
                   \cup (IF "r0" \in DOMAIN e THEN C("history", e.st # e.st0 \/ e.r # e.r0) ELSE {})
=============================================================================
