-------------------------------- MODULE MCNet --------------------------------
(* Small-scope model of network selection: from every network to every other, with a
   refused selection in between; what a call then does is a function of the network
   selected last and of nothing else.                                                *)
EXTENDS Samples, Api, Emit
VARIABLES net, path, n
vars == <<net, path, n>>
K == EnvOr("MC_KIND", "pairs")     \* pairs | single
Reps == {"bitcoin_main", "bitcoin_cash_main", "zcash_sprout_main", "zcash_overwinter_test", "zcash_sapling_main", "decred_main", "bitcore_main",
         "bitcoin_private_test", "decred_simnet", "vertcoin_reg"}
Junk == <<"bitcoin", "BITCOIN_MAIN", "bitcoin_main ", "", "decred", "zcash_main", " decred_main", "bitcoin-main", "None", "litecoin_simnet", "decred_main_main", "main", "_main">>
ASSUME \A i \in 1..Len(Junk) : ~IsNet(Junk[i])
NameSeq == SetToSeq(NetNames)
Rank(x) == CHOOSE i \in 1..72 : NameSeq[i] = x
ASSUME Cardinality(NetNames) = 72

Init == net \in NetNames /\ path = <<net>> /\ n = 0
Select == /\ K = "pairs" /\ n < 2 /\ n' = n + 1
          /\ \E to \in (IF n = 0 THEN {Junk[1 + (Rank(net) % Len(Junk))]} ELSE IF Deep THEN NetNames \ {net} ELSE Reps \ {net}) :
               path' = Append(path, to) /\ net' = IF IsNet(to) THEN to ELSE net
Next == Select
Spec == Init /\ [][Next]_vars
\* the network in force is the last one that exists
LastValid == net = path[CHOOSE i \in 1..Len(path) : IsNet(path[i]) /\ \A j \in i + 1..Len(path) : ~IsNet(path[j])]

H20 == Pat(9, 1, 20)
Key == <<2>> \o Pat(4, 1, 32)
TextOn(m, kind) == LET x == AddrOf(m, kind, IF kind = "wsh" THEN Pat(9, 1, 32) ELSE H20, TRUE) IN IF x.ok THEN x.v ELSE <<49>>
T1 == [version |-> <<2, 0, 0, 0>>, flag |-> None, ins |-> <<SIn(1)>>, outs |-> <<SOut(1)>>, wits |-> <<>>, lock |-> Zeros(4)]
OpC == <<79, 80, 95>>
OpBlake256 == OpC \o <<66, 76, 65, 75, 69, 50, 53, 54>>
OpSha256 == OpC \o <<83, 72, 65, 50, 53, 54>>
OpCltv == OpC \o <<67, 72, 69, 67, 75, 76, 79, 67, 75, 84, 73, 77, 69, 86, 69, 82, 73, 70, 89>>
FamKind == LET f == Family(net) IN IF f = "bitcoin" THEN "tx" ELSE f
FamObj == IF FamKind = "tx" THEN T1 ELSE Sample(FamKind, 1)
Req(js) == [idx |-> 0, base |-> "all", acp |-> FALSE, script |-> IF FamKind = "decred" THEN <<81>> ELSE <<1, 81>>, value |-> Opt(<<5, 0, 0, 0, 0, 0, 0, 0>>), js |-> js, via |-> "wrap"]
Parts(d, ik, ok, jk, kind) ==
  [f |-> "tx", version |-> SPos(<<2>>), lock |-> SPos(<<7>>), ins |-> d.ins, outs |-> d.outs,
   expiry |-> IF kind = "tx" THEN None ELSE Opt(SPos(<<9>>)), vb |-> None, spends |-> None, souts |-> None,
   wits |-> IF kind = "decred" THEN <<d.wits>> ELSE None, js |-> IF kind \in {"sprout", "overwinter"} THEN <<d.js>> ELSE None,
   pub |-> IF kind \in {"sprout", "overwinter"} THEN d.pub ELSE <<>>, sig |-> IF kind \in {"sprout", "overwinter"} THEN d.sig ELSE <<>>, bsig |-> <<>>,
   ik |-> ik, ok |-> ok, jk |-> jk]
Here == LET f == Family(net) IN
  IF f = "decred" THEN Parts(Sample("decred", 1), "dtxin", "dtxout", "sjs", "decred")
  ELSE IF f = "overwinter" THEN Parts(Sample("overwinter", 1), "txin", "txout", "sjs", "overwinter")
  ELSE IF f = "sprout" THEN Parts(Sample("sprout", 1), "txin", "txout", "sjs", "sprout")
  ELSE Parts(T1, "txin", "txout", "gjs", IF f = "sapling" THEN "sapling" ELSE "tx")
Probes == <<
  Act("addr", [f |-> "from_script", b |-> ScriptOf("pkh", H20), dflt |-> TRUE, cash |-> TRUE]),
  Act("vi_dec", [b |-> <<253, 5, 0>>, form |-> "bytes"]),
  Act("hash", [f |-> "hash160", b |-> Key, size |-> <<>>, person |-> <<>>]),
  Act("addr", [f |-> "from_script", b |-> ScriptOf("wsh", Pat(9, 1, 32)), dflt |-> FALSE, cash |-> FALSE]),
  Act("addr", [f |-> "to_script", t |-> TextOn(path[1], "pkh")]),
  Act("ser", [toks |-> <<OpBlake256>>, hex |-> FALSE]),
  Act("deser", [b |-> <<168, 177, 178>>, hex |-> FALSE]),
  Act("tb", Here),
  Act("tb", [f |-> "pkh_output", value |-> SPos(<<1, 1>>), pub |-> Key, wit |-> FALSE]),
  Act("mk", [k |-> FamKind, d |-> FamObj, form |-> "bytes", wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>]),
  Act("sig", [k |-> FamKind, d |-> FamObj, src |-> "mk", reqs |-> <<Req(FALSE)>>]),
  Act("addr", [f |-> "to_script", t |-> TextOn(path[1], "wpkh")]),
  Act("tb", [f |-> "outpoint", txid |-> Pat(8, 1, 32), index |-> SPos(<<3>>), tree |-> <<>>]),
  Act("bech32", [f |-> "enc", b |-> <<0, 20>> \o H20]),
  Act("mk", [k |-> "sapling", d |-> Sample("sapling", 1), form |-> "bytes", wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>]),
  Act("mk", [k |-> "decred", d |-> Sample("decred", 1), form |-> "bytes", wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>]),
  Act("cash", [f |-> "enc", b |-> <<0>> \o H20]),
  Act("addr", [f |-> "p2wpkh", pub |-> Key]),
  Act("addr", [f |-> "legacy_p2pkh", pub |-> Key]),
  Act("addr", [f |-> "p2sh", toks |-> <<OpSha256>>]),
  Act("addr", [f |-> "p2sh", toks |-> <<OpCltv>>]),
  Act("addr", [f |-> "parse_hash", t |-> TextOn(path[1], "sh")]),
  Act("mk", [k |-> "overwinter", d |-> Sample("overwinter", 1), form |-> "bytes", wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>]),
  Act("parse", [k |-> "tx", b |-> SerTx(T1), form |-> "bytes"]),
  Act("tb", [f |-> "pkh_output_script", pub |-> Key, wit |-> TRUE]),
  Act("mk", [k |-> "sprout", d |-> Sample("sprout", 1), form |-> "bytes", wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>]),
  Act("tb", [f |-> "sh_output", value |-> SPos(<<1, 1>>), toks |-> <<OpSha256>>, wit |-> FALSE]) >>
NP == Len(Probes)
\* three probes in each place; the same three after the refused selection as before it
At3(i) == <<Probes[1 + (i % NP)], Probes[1 + ((i + 9) % NP)], Probes[1 + ((i + 18) % NP)]>>
Rk == Rank(path[1]) + 5 * Rank(net)
\* the session is emitted once per complete path; probes of the first network are built in the first network's terms
EmitPairs == n = 2 => LET second == At3(Rk) IN
  Session(<<Reset, Use(path[1])>> \o second \o <<Use(path[2])>> \o second \o <<Use(path[3])>> \o second)
EmitSingle == K = "single" /\ n = 0 => Session(<<Reset, Use(net)>> \o Probes)
=============================================================================
