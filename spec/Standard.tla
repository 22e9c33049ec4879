------------------------------ MODULE Standard ------------------------------
(* Relay rules: what a node of a Bitcoin-format network forwards.  Verdicts are
   "yes", "no" or "open" (cases in which nodes' rules and the properties differ or
   are silent: reserved opcodes, four-byte pushes, odd public keys, 81..83-byte
   data carriers, data carriers with a value).                                *)
EXTENDS Address

And3(vs) == IF "no" \in vs THEN "no" ELSE IF "open" \in vs THEN "open" ELSE "yes"

MAXWEIGHT == 400000
MINSIZE == 82
DUST == <<38, 2>>                  \* 550
LOCKTHRESHOLD == 500000000
MAXCARRIER == 80

PushOnly(net, s) ==
  LET d == Deser(net, s) IN
  IF ~d.ok THEN IF \E i \in 1..Len(s) : s[i] = 78 THEN "open" ELSE "unparsable"
  ELSE LET ops == {OpByte(net, d.v[i].s) : i \in {j \in 1..Len(d.v) : d.v[j].t = "op"}} IN
       IF \E o \in ops : o >= 97 THEN "no" ELSE IF 80 \in ops THEN "open" ELSE "yes"
PO(net, s) == LET p == PushOnly(net, s) IN IF p = "unparsable" THEN "no" ELSE p

KeyLen(b) == Len(b) \in {33, 65}
KeyHeadOk(b) == (Len(b) = 33 /\ b[1] \in {2, 3}) \/ (Len(b) = 65 /\ b[1] = 4)
SmallInt(net, k) == IF k.t = "op" /\ OpByte(net, k.s) >= 81 /\ OpByte(net, k.s) <= 96 THEN OpByte(net, k.s) - 80 ELSE 0

OutType(net, s) ==
  LET c == Classify(s) IN
  IF c.kind \in {"pkh", "sh"} THEN "yes"
  ELSE IF c.kind \in {"wpkh", "wsh"} THEN (IF AddrOf(net, c.kind, c.h, TRUE).ok THEN "yes" ELSE "open")
  ELSE LET d == Deser(net, s) n == Len(d.v) IN
    IF ~d.ok THEN "no"
    ELSE IF n = 2 /\ d.v[1].t = "data" /\ d.v[2] = OpTok("OP_CHECKSIG") /\ KeyLen(d.v[1].b)
    THEN IF KeyHeadOk(d.v[1].b) /\ s = Push(d.v[1].b) \o <<172>> THEN "yes" ELSE "open"
    ELSE IF n >= 4 /\ d.v[n] = OpTok("OP_CHECKMULTISIG") /\ SmallInt(net, d.v[1]) > 0 /\ SmallInt(net, d.v[n - 1]) > 0
    THEN LET m == SmallInt(net, d.v[1]) k == SmallInt(net, d.v[n - 1]) keys == SubSeq(d.v, 2, n - 2) IN
      IF m > k \/ k > 3 \/ Len(keys) # k \/ \E i \in 1..Len(keys) : keys[i].t # "data" THEN "no"
      ELSE IF \E i \in 1..k : ~KeyLen(keys[i].b) THEN "no"
      ELSE IF \A i \in 1..k : KeyHeadOk(keys[i].b) THEN "yes" ELSE "open"
    ELSE "no"

IsCarrierLike(o) == o.script # <<>> /\ o.script[1] = 106
Carrier(net, o) ==
  LET rest == Drop(o.script, 1) p == PO(net, rest) IN
  IF Len(o.script) > 83 \/ p = "no" THEN "no"
  ELSE IF Len(o.script) > MAXCARRIER \/ rest = <<>> \/ ~AllZero(o.value) \/ p = "open" THEN "open"
  ELSE "yes"
OutVerdict(net, o) ==
  IF IsCarrierLike(o) THEN Carrier(net, o)
  ELSE LET t == OutType(net, o.script) IN
       IF t = "no" THEN "no"
       ELSE IF MagLess(o.value, DUST) /\ Classify(o.script).kind # "wpkh" THEN "no" ELSE t
OutsVerdict(net, d) ==
  LET vs == Tup([i \in 1..Len(d.outs) |-> OutVerdict(net, d.outs[i])])
      sure == {i \in 1..Len(d.outs) : IsCarrierLike(d.outs[i]) /\ vs[i] = "yes"}
      maybe == {i \in 1..Len(d.outs) : IsCarrierLike(d.outs[i])}
  IN IF Cardinality(sure) > 1 THEN "no"
     ELSE And3({vs[i] : i \in 1..Len(vs)} \cup (IF Cardinality(maybe) > 1 THEN {"open"} ELSE {}))
Weight(d) == 3 * Len(SerTxNoWit(d)) + Len(SerTx(d))
InVerdict(net, i) == IF Len(i.stack) + Len(i.redeem) > MAXSIG THEN "no" ELSE PO(net, i.stack \o i.redeem)
TxVerdict(net, d) ==
  IF d.version \notin {<<1, 0, 0, 0>>, <<2, 0, 0, 0>>} \/ Weight(d) > MAXWEIGHT THEN "no"
  ELSE And3({InVerdict(net, d.ins[i]) : i \in 1..Len(d.ins)} \cup {OutsVerdict(net, d)})

SizeSmall(d) == Len(SerTxNoWit(d)) >= MINSIZE
\* height and time are magnitudes
Final(d, height, time) ==
  IF MagLess(d.lock, <<0, 101, 205, 29>>) THEN MagLeq(d.lock, height) ELSE MagLeq(d.lock, time)
=============================================================================
