------------------------------- MODULE MCBuild -------------------------------
(* Small-scope model of transaction building: a caller lays out the parts of a
   transaction, changing one choice after another; the network decides what they make. *)
EXTENDS Samples, Api, Emit
VARIABLES net, ch
vars == <<net, ch>>
Nets == {"bitcoin_main", "dogecoin_test", "zcash_sprout_main", "zcash_overwinter_test", "zcash_sapling_main", "decred_test"}
I(n) == SPos(Mag(n))
Two32 == SPos(<<0, 0, 0, 0, 1>>)
Fam == Family(net)
Kd == IF Fam = "bitcoin" THEN "tx" ELSE Fam
Ob == Sample(Kd, 1)
Nums == <<I(0), I(1), I(255), SPos(Rep(255, 4)), Two32, SNeg(I(1))>>
ParamNames == {"version", "lock", "expiry", "vb", "ins", "outs", "wits", "js", "keys", "spends", "souts", "bsig"}
JOf == IF Fam = "sapling" THEN GJS(1) ELSE SJS(1)
InOf(i) == IF Fam = "decred" THEN SDIn(i) ELSE SIn(i)
OutOf(i) == IF Fam = "decred" THEN SDOut(i) ELSE SOut(i)
Options(f) ==
  CASE f = "version" -> Nums \o <<I(2), I(4)>>
    [] f = "lock" -> Nums
    [] f = "expiry" -> <<None>> \o MapSeq(LAMBDA n : Opt(n), Nums \o <<SPos(<<255, 100, 205, 29>>), SPos(<<0, 101, 205, 29>>)>>)
    [] f = "vb" -> <<None>> \o MapSeq(LAMBDA n : Opt(n), <<I(0), SNeg(I(1)), SPos(Rep(255, 7) \o <<127>>), SPos(Zeros(7) \o <<128>>), SNeg(SPos(Zeros(7) \o <<128>>)), SNeg(SPos(<<1>> \o Zeros(6) \o <<128>>))>>)
    [] f = "ins" -> <<<<>>, <<InOf(1)>>, <<InOf(1), InOf(2)>>>>
    [] f = "outs" -> <<<<>>, <<OutOf(1)>>, <<OutOf(1), OutOf(2)>>>>
    [] f = "wits" -> <<None, <<<<>>>>>> \o (IF Fam = "decred" THEN <<<<<<SDWit(1)>>>>, <<<<SDWit(1), SDWit(2)>>>>>> ELSE <<<<<<<<<<7>>>>>>>>, <<<<<<<<7>>>>, <<>>>>>>>>)
    [] f = "js" -> <<None, <<<<>>>>, <<<<JOf>>>>, <<<<JOf, JOf>>>>>>
    [] f = "keys" -> <<<<None, None>>, <<Opt(Pat(1, 5, 32)), Opt(Pat(1, 6, 64))>>, <<Opt(Pat(1, 5, 31)), Opt(Pat(1, 6, 64))>>, <<Opt(Pat(1, 5, 32)), Opt(Pat(1, 6, 65))>>, <<None, Opt(Pat(1, 6, 64))>>>>
    [] f = "spends" -> <<None, <<<<>>>>, <<<<SSpend(1)>>>>, <<<<SSpend(1), SSpend(2)>>>>>>
    [] f = "souts" -> <<None, <<<<>>>>, <<<<SSOut(1)>>>>, <<<<SSOut(1), SSOut(2)>>>>>>
    [] f = "bsig" -> <<None, Opt(Pat(1, 8, 64)), Opt(Pat(1, 8, 63))>>
\* the choice every layout starts from, per family
Start == [version |-> 7, lock |-> 2, expiry |-> IF Fam \in {"bitcoin", "sprout"} THEN 1 ELSE 3, vb |-> 1, ins |-> 2, outs |-> 2,
          wits |-> IF Fam = "decred" THEN 3 ELSE 1, js |-> IF Fam \in {"sprout", "overwinter"} THEN 3 ELSE IF Fam = "sapling" THEN 2 ELSE 1,
          keys |-> IF Fam \in {"sprout", "overwinter"} THEN 2 ELSE 1, spends |-> IF Fam = "sapling" THEN 3 ELSE 1, souts |-> IF Fam = "sapling" THEN 3 ELSE 1,
          bsig |-> IF Fam = "sapling" THEN 2 ELSE 1]
Changed == {f \in ParamNames : ch[f] # Start[f]}
Rank(f) == CHOOSE i \in 1..12 : <<"version", "lock", "expiry", "vb", "ins", "outs", "wits", "js", "keys", "spends", "souts", "bsig">>[i] = f
Init == net \in Nets /\ ch = Start
Change == /\ Cardinality(Changed) < 2
          /\ \E f \in ParamNames \ Changed : \E i \in 1..Len(Options(f)) :
               /\ i # ch[f] /\ (\A g \in Changed : Rank(g) < Rank(f))
               /\ (Deep \/ Changed = {} \/ (Rank(f) + i) % 6 = 0)
               /\ ch' = [ch EXCEPT ![f] = i]
Next == Change /\ net' = net
Spec == Init /\ [][Next]_vars
Pick(f) == Options(f)[ch[f]]
Args == [f |-> "tx", version |-> Pick("version"), lock |-> Pick("lock"), expiry |-> Pick("expiry"), vb |-> Pick("vb"), ins |-> Pick("ins"), outs |-> Pick("outs"),
         wits |-> Pick("wits"), js |-> Pick("js"), pub |-> Pick("keys")[1], sig |-> Pick("keys")[2], spends |-> Pick("spends"), souts |-> Pick("souts"), bsig |-> Pick("bsig"),
         ik |-> IF Fam = "decred" THEN "dtxin" ELSE "txin", ok |-> IF Fam = "decred" THEN "dtxout" ELSE "txout", jk |-> IF Fam = "sapling" THEN "gjs" ELSE "sjs"]
P == TxParts(net, Args)
V == Verdict(Faults(net, P.k, P.d))
\* the family, not the parts, decides the format (a Sprout network also makes plain transactions)
Format == P.k = Kd \/ (Fam = "sprout" /\ P.k = "tx" /\ Args.js = <<>>)
\* what can be built can be read back as what was laid out
WholeSigs(d) == [d EXCEPT !.ins = MapSeq(LAMBDA i : [i EXCEPT !.stack = i.stack \o i.redeem, !.redeem = <<>>], @)]
ReadsBack == (V = "yes" /\ ~P.open /\ P.k # "decred") => LET r == Parse(net, P.k, Ser(P.k, P.d)) IN
   r.st = "yes" => WholeSigs(Shown(P.k, r.d)) = WholeSigs(Shown(P.k, P.d))
Keeps == V = "yes" => /\ LEInt(P.d.lock) = LEInt(Pick("lock").mag) /\ P.d.ins = Pick("ins") /\ P.d.outs = Pick("outs")
TooBig == (\E f \in {"lock"} : Pick(f).neg \/ Len(Pick(f).mag) > 4) => V = "no"
Simple == LET s == [f |-> "s_legacy_tx", version |-> IF ch.version = Start.version THEN <<>> ELSE <<Pick("version")>>, lock |-> IF ch.lock = Start.lock THEN <<>> ELSE <<Pick("lock")>>,
                    expiry |-> Pick("expiry"), js |-> IF Args.js # <<>> /\ Args.js[1] = <<>> THEN <<>> ELSE Args.js, pub |-> Args.pub, sig |-> Args.sig, ins |-> Args.ins, outs |-> Args.outs, ik |-> Args.ik, ok |-> Args.ok, jk |-> Args.jk]
              w == [f |-> "s_witness_tx", version |-> s.version, lock |-> s.lock, ins |-> s.ins, outs |-> s.outs, ik |-> s.ik, ok |-> s.ok]
          IN (IF Changed \subseteq {"version", "lock", "expiry", "js", "keys", "ins", "outs"} THEN <<Act("tb", s)>> ELSE <<>>)
             \o (IF Changed \subseteq {"version", "lock", "ins", "outs"} THEN <<Act("tb", w)>> ELSE <<>>)
EmitAll == Session(<<Reset, Use(net), Act("tb", Args)>> \o Simple)
=============================================================================
