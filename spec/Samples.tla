------------------------------- MODULE Samples -------------------------------
(* Two different well-formed values of every kind of object, for the bounded models. *)
EXTENDS Wire
AllKinds == {"outpoint", "txin", "txout", "witem", "witness", "tx", "sproof", "gproof", "sjs", "gjs", "gspend", "goutput",
             "sprout", "overwinter", "sapling", "doutpoint", "dtxin", "dtxout", "dwitness", "decred"}
Parsers == {"outpoint", "txin", "txout", "witem", "witness", "tx", "sjs", "gjs", "gspend", "goutput", "sprout", "overwinter", "sapling", "sproof", "gproof",
            "doutpoint", "dtxin", "dtxout"}
Copiers == {"outpoint", "txin", "txout", "witness", "tx", "sprout", "overwinter", "sapling", "doutpoint", "dtxin", "dtxout", "dwitness", "decred"}
HomeOf(k) == CASE k = "sprout" -> "zcash_sprout_main" [] k = "overwinter" -> "zcash_overwinter_test" [] k \in {"gproof", "gjs", "gspend", "goutput", "sapling"} -> "zcash_sapling_main"
               [] k \in {"sproof", "sjs"} -> "zcash_sprout_test" [] k \in DecredKinds -> "decred_test" [] OTHER -> "bitcoin_main"
Pat(i, j, n) == Tup([m \in 1..n |-> ((16 * i + 7 * j + m) % 251) + 1])
RecOf(fs, sizes, i) == [f \in {fs[j] : j \in 1..Len(fs)} |-> LET j == CHOOSE j \in 1..Len(fs) : fs[j] = f IN Pat(i, j, sizes[j])]
SIn(i)  == [op |-> Pat(i, 1, 36), stack |-> <<1, 80 + i>>, redeem |-> <<>>, seq |-> <<i, 255, 255, 255>>]
SOut(i) == [value |-> <<i, 2, 3, 0, 0, 0, 0, 0>>, script |-> <<80 + i, 135>>]
SDIn(i) == [op |-> Pat(i, 1, 36) \o <<i % 2>>, seq |-> <<i, 255, 255, 255>>]
SDOut(i) == [value |-> <<i, 2, 3, 0, 0, 0, 0, 0>>, version |-> <<i, 0>>, script |-> <<80 + i, 135>>]
SDWit(i) == [value |-> <<i, 9, 3, 0, 0, 0, 0, 0>>, height |-> <<i, 1, 0, 0>>, index |-> <<i, 0, 0, 0>>, stack |-> <<1, 80 + i>>, redeem |-> <<>>]
SJS(i) == [RecOf(JSFields, SJSSizes, i) EXCEPT !.vold = Zeros(8)]
GJS(i) == [RecOf(JSFields, GJSSizes, i) EXCEPT !.vnew = Zeros(8)]
SSpend(i) == RecOf(SpendFields, SpendSizes, i)
SSOut(i) == RecOf(OutFields, OutSizes, i)
Sample(k, i) ==
  CASE k = "outpoint" -> [txid |-> Pat(i, 1, 32), index |-> Pat(i, 2, 4)]
    [] k = "txin" -> SIn(i)
    [] k = "txout" -> SOut(i)
    [] k = "witem" -> [item |-> Pat(i, 1, 3 + i)]
    [] k = "witness" -> [stack |-> <<<<i>>, Pat(i, 1, 2)>>]
    [] k = "tx" -> [version |-> <<i, 0, 0, 0>>, flag |-> Opt(SegwitFlag), ins |-> <<SIn(i), SIn(i + 4)>>, outs |-> <<SOut(i), SOut(i + 4)>>,
                    wits |-> <<<<<<i>>, Pat(i, 1, 2)>>, <<>>>>, lock |-> Pat(i, 6, 4)]
    [] k = "sproof" -> [parts |-> Tup([j \in 1..8 |-> Pat(i, j, SProofSizes[j])])]
    [] k = "gproof" -> [parts |-> Tup([j \in 1..3 |-> Pat(i, j, GProofSizes[j])])]
    [] k = "sjs" -> SJS(i) [] k = "gjs" -> GJS(i) [] k = "gspend" -> SSpend(i) [] k = "goutput" -> SSOut(i)
    [] k = "sprout" -> [version |-> <<2, 0, 0, 0>>, ins |-> <<SIn(i)>>, outs |-> <<SOut(i)>>, lock |-> Pat(i, 4, 4),
                        js |-> <<SJS(i)>>, pub |-> Opt(Pat(i, 5, 32)), sig |-> Opt(Pat(i, 6, 64))]
    [] k = "overwinter" -> [ins |-> <<SIn(i)>>, outs |-> <<SOut(i)>>, lock |-> Pat(i, 4, 4), expiry |-> <<i, 2, 3, 4>>,
                        js |-> <<SJS(i)>>, pub |-> Opt(Pat(i, 5, 32)), sig |-> Opt(Pat(i, 6, 64))]
    [] k = "sapling" -> [ins |-> <<SIn(i)>>, outs |-> <<SOut(i)>>, lock |-> Pat(i, 4, 4), expiry |-> <<i, 2, 3, 4>>, vb |-> Pat(i, 7, 8),
                        spends |-> <<SSpend(i)>>, souts |-> <<SSOut(i)>>,
                        js |-> <<GJS(i)>>, pub |-> Opt(Pat(i, 5, 32)), sig |-> Opt(Pat(i, 6, 64)), bsig |-> Opt(Pat(i, 8, 64))]
    [] k = "doutpoint" -> [txid |-> Pat(i, 1, 32), index |-> Pat(i, 2, 4), tree |-> <<i % 2>>]
    [] k = "dtxin" -> SDIn(i) [] k = "dtxout" -> SDOut(i) [] k = "dwitness" -> SDWit(i)
    [] k = "decred" -> [version |-> <<i, 0, 0, 0>>, ins |-> <<SDIn(i), SDIn(i + 4)>>, outs |-> <<SDOut(i)>>, lock |-> Pat(i, 4, 4), expiry |-> Pat(i, 5, 4),
                        wits |-> <<SDWit(i), SDWit(i + 4)>>]
BytesLike(v) == \A i \in 1..Len(v) : v[i] \in 0..255
ByteFields(k) == CASE k \in {"outpoint"} -> {"txid", "index"} [] k = "txin" -> {"op", "stack", "redeem", "seq"} [] k = "txout" -> {"value", "script"}
   [] k = "witem" -> {"item"} [] k \in {"witness", "sproof", "gproof"} -> {} [] k \in {"sjs", "gjs"} -> {JSFields[i] : i \in 1..10}
   [] k = "gspend" -> {SpendFields[i] : i \in 1..6} [] k = "goutput" -> {OutFields[i] : i \in 1..6}
   [] k = "tx" -> {"version", "lock"} [] k = "sprout" -> {"version", "lock"} [] k = "overwinter" -> {"lock", "expiry"} [] k = "sapling" -> {"lock", "expiry", "vb"}
   [] k = "doutpoint" -> {"txid", "index", "tree"} [] k = "dtxin" -> {"op", "seq"} [] k = "dtxout" -> {"value", "version", "script"}
   [] k = "dwitness" -> {"value", "height", "index", "stack", "redeem"} [] k = "decred" -> {"version", "lock", "expiry"}
OptionFields(k) == CASE k = "tx" -> {"flag"} [] k \in {"sprout", "overwinter"} -> {"pub", "sig"} [] k = "sapling" -> {"pub", "sig", "bsig"} [] OTHER -> {}
VecFields(k) == DOMAIN Sample(k, 1) \ (ByteFields(k) \cup OptionFields(k))
=============================================================================
