------------------------------- MODULE MCParts -------------------------------
(* Small-scope model of the builders of outputs, inputs and witnesses: scripts and keys
   of all sizes around the push boundaries, on networks of every family.               *)
EXTENDS Samples, Api, Emit
VARIABLES net, src, n
vars == <<net, src, n>>
Nets == {"bitcoin_main", "dogecoin_main", "decred_main", "zcash_sapling_main"} \cup (IF Deep THEN {"bitcore_main", "bitcoin_cash_main", "zcash_sprout_test", "litecoin_reg"} ELSE {})
Op1 == <<79, 80, 95, 49>>
OpDup == <<79, 80, 95, 68, 85, 80>>
OpBad == <<79, 80, 95, 68, 85>>
Hex(m) == ToHexText(Pat(3, 1, m))
Toks == {<<>>, <<Op1>>, <<OpDup, Op1>>, <<Hex(1)>>, <<Hex(20), OpDup>>, <<OpBad>>, <<Hex(1), OpBad>>}
        \cup {<<Hex(m)>> : m \in {2, 75, 76, 255, 256} \cup (IF Deep THEN {3, 73, 74, 77, 254, 257, 519, 520, 521} ELSE {})}
Pubs == {<<2>> \o Pat(1, 1, 32), <<4>> \o Pat(1, 1, 64), <<>>, <<7>>}
Nums8 == {Int0, SPos(<<1>>), SPos(<<0, 1>>), SPos(Rep(255, 8)), SPos(Zeros(8) \o <<1>>), SNeg(SPos(<<1>>))}
Nums4 == {Int0, SPos(<<254, 255, 255, 255>>), SPos(Rep(255, 4)), SPos(Zeros(4) \o <<1>>), SNeg(SPos(<<1>>))}
Srcs == [t : {"script"}, x : Toks] \cup [t : {"pub"}, x : Pubs] \cup [t : {"value"}, x : Nums8] \cup [t : {"seq"}, x : Nums4]
        \cup [t : {"sig"}, x : {<<>>, <<Op1>>, <<Hex(72), Hex(33)>>, <<Hex(76)>>}]
        \cup [t : {"data"}, x : {Pat(2, 2, m) : m \in {0, 1, 20, 74, 75, 76, 77, 78, 252, 253} \cup (IF Deep THEN {2, 79, 80, 251, 254, 255, 256} ELSE {})}]
\* the redeem script that comes with a script sig
Init == net \in Nets /\ src \in Srcs /\ n = <<>>
Redeem == src.t = "sig" /\ n = <<>> /\ \E r \in Toks \ {<<>>} : n' = r
Next == Redeem /\ UNCHANGED <<net, src>>
Spec == Init /\ [][Next]_vars

S == SerText(net, src.x)
\* an output script made from a script or key says which it is, and holds its hash
Faithful == src.t = "script" => LET o == ShScript(net, src.x, FALSE) w == ShScript(net, src.x, TRUE) IN
  /\ o.ok = S.ok /\ (o.ok => Classify(o.v) = [kind |-> "sh", h |-> Hash160(net, S.v)])
  /\ w.ok = (S.ok /\ Net(net).segwit) /\ (w.ok => Classify(w.v) = [kind |-> "wsh", h |-> SHA256(S.v)])
Keyed == src.t = "pub" => LET o == PkhScript(net, src.x, FALSE) w == PkhScript(net, src.x, TRUE) IN
  /\ o.ok /\ Classify(o.v).kind = "pkh" /\ Classify(o.v).h = Hash160(net, src.x)
  /\ w.ok = Net(net).segwit /\ (w.ok => Classify(w.v) = [kind |-> "wpkh", h |-> Hash160(net, src.x)])
\* a script sig built from two parts comes apart into them (if the redeem script is one a push can hold)
Sig == LET r == SerText(net, n) s == SerText(net, src.x) IN IF r.ok /\ s.ok /\ Len(r.v) <= MAXPUSH THEN Good(s.v \o Push(r.v)) ELSE Bad
Splits == src.t = "sig" /\ n # <<>> /\ Sig.ok =>
  LET d == Deser(net, Sig.v) IN d.ok => d.v[Len(d.v)] = DataTok(SerText(net, n).v) \/ Len(SerText(net, n).v) = 0
Tb(f, r) == Act("tb", r @@ [f |-> f])
V0 == SPos(<<232, 3>>)
Opn == IF IsD(net) THEN Sample("doutpoint", 1) ELSE Sample("outpoint", 1)
Calls == CASE src.t = "script" ->
      <<Tb("sh_output_script", [toks |-> src.x, wit |-> TRUE]), Tb("sh_output_script", [toks |-> src.x, wit |-> FALSE]), Tb("p2sh_output_script", [toks |-> src.x]),
        Tb("p2wsh_output_script", [toks |-> src.x]), Tb("sh_output", [value |-> V0, toks |-> src.x, wit |-> FALSE]), Tb("p2sh_output", [value |-> V0, toks |-> src.x]),
        Tb("p2wsh_output", [value |-> V0, toks |-> src.x])>>
      \o (IF S.ok THEN <<Tb("sh_script_pubkey", [script |-> S.v, wit |-> TRUE]), Tb("sh_script_pubkey", [script |-> S.v, wit |-> FALSE])>> ELSE <<>>)
   [] src.t = "pub" ->
      <<Tb("pkh_output_script", [pub |-> src.x, wit |-> TRUE]), Tb("pkh_output_script", [pub |-> src.x, wit |-> FALSE]), Tb("p2pkh_output_script", [pub |-> src.x]),
        Tb("p2wpkh_output_script", [pub |-> src.x]), Tb("p2pkh_output", [value |-> V0, pub |-> src.x]), Tb("p2wpkh_output", [value |-> V0, pub |-> src.x])>>
   [] src.t = "value" ->
      <<Tb("pkh_output", [value |-> src.x, pub |-> <<2>> \o Pat(1, 1, 32), wit |-> FALSE]), Tb("sh_output", [value |-> src.x, toks |-> <<Op1>>, wit |-> TRUE]),
        Tb("p2wpkh_output", [value |-> src.x, pub |-> <<2>> \o Pat(1, 1, 32)]), Tb("p2sh_output", [value |-> src.x, toks |-> <<OpDup>>])>>
   [] src.t = "seq" ->
      <<Tb("legacy_input", [op |-> Opn, stack |-> <<1, 7>>, redeem |-> <<1, 81>>, seq |-> src.x]), Tb("witness_input", [op |-> Opn, seq |-> src.x]),
        Tb("decred_input", [op |-> Opn, seq |-> src.x]), Tb("outpoint", [txid |-> Pat(5, 5, 32), index |-> src.x, tree |-> <<>>]),
        Tb("outpoint", [txid |-> Pat(5, 5, 32), index |-> V0, tree |-> <<src.x>>]), Tb("outpoint", [txid |-> Pat(5, 5, 31), index |-> src.x, tree |-> <<>>]),
        Tb("s_input", [op |-> Opn, seq |-> <<src.x>>]), Tb("s_outpoint", [txid |-> ToHexText(Pat(5, 5, 32)), index |-> src.x, tree |-> <<>>])>>
   [] src.t = "data" ->
      <<Tb("op_return_output", [data |-> src.x]), Tb("witness_stack_item", [data |-> src.x]), Tb("length_prepend", [data |-> src.x]),
        Tb("witness", [items |-> <<src.x, <<>>, src.x>>])>>
   [] OTHER -> <<Tb("script_sig", [stack |-> src.x, redeem |-> n])>>
EmitAll == Session(<<Reset, Use(net)>> \o Calls)
=============================================================================
