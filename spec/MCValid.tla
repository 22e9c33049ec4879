------------------------------- MODULE MCValid -------------------------------
(* Small-scope model of validity: a well-formed value of any kind is spoilt field by
   field; it may be built exactly while every rule holds, and the parser never yields
   what the constructor would refuse.                                               *)
EXTENDS Samples, Emit
VARIABLES k, net, d, n
vars == <<k, net, d, n>>
Others(kk) == CASE kk \in NetsOf("sprout") -> {} [] OTHER -> {}
AwayNets == {"bitcoin_main", "zcash_sprout_main", "zcash_overwinter_main", "zcash_sapling_test", "decred_main"}
Init == /\ k \in AllKinds /\ d = Sample(k, 1) /\ n = 0
        /\ net \in {HomeOf(k)} \cup AwayNets
Resize(v) == {Append(v, 0), v \o v, <<>>, Drop(v, 1)} \ {v}
ByteEdits == UNION {{[d EXCEPT ![f] = w] : w \in Resize(d[f])} : f \in {g \in ByteFields(k) : d[g] # <<>>}}
OptEdits == UNION {{[d EXCEPT ![f] = w] : w \in {None, Opt(<<>>), Opt(Append(FromOpt(d[f]), 0)), Opt(Take(FromOpt(d[f]), Len(FromOpt(d[f])) - 1))} \ {d[f]}} : f \in OptionFields(k)}
VecEdits == UNION {{[d EXCEPT ![f] = w] : w \in {<<>>, d[f] \o d[f], Tail(d[f])} \ {d[f]}} : f \in {g \in VecFields(k) \ {"parts"} : d[g] # <<>>}}
Has(f) == f \in DOMAIN d
Part(f, g, w) == IF Has(f) /\ d[f] # <<>> THEN {[d EXCEPT ![f][Len(d[f])][g] = w]} ELSE {}
InnerEdits ==
  CASE k \in {"tx", "sprout", "overwinter", "sapling", "decred"} ->
         UNION {Part("ins", "op", Zeros(35)), Part("ins", "seq", Zeros(5)), Part("outs", "value", Zeros(7)),
                IF k = "decred" THEN Part("outs", "version", <<1>>) \cup Part("wits", "value", Zeros(9)) \cup Part("wits", "height", Zeros(3))
                ELSE Part("ins", "stack", Rep(97, 1649)) \cup Part("ins", "stack", Rep(97, 1650)) \cup Part("ins", "stack", Rep(97, 1651)),
                Part("js", "anchor", Zeros(31)), Part("js", "vold", <<1, 0, 0, 0, 0, 0, 0, 0>>), Part("js", "vnew", <<0, 0, 0, 0, 0, 0, 0, 1>>),
                Part("spends", "auth", Zeros(63)), Part("souts", "outc", Zeros(81))}
    [] k \in {"sproof", "gproof"} -> UNION {{[d EXCEPT !.parts[i] = w] : w \in Resize(d.parts[i])} : i \in 1..Len(d.parts)}
    [] k \in {"sjs", "gjs"} -> {[d EXCEPT !.vold = Rep(1, 8), !.vnew = Rep(1, 8)], [d EXCEPT !.vold = Zeros(8), !.vnew = Zeros(8)],
                                [d EXCEPT !.vold = Zeros(7) \o <<1>>], [d EXCEPT !.vnew = Zeros(7) \o <<1>>], [d EXCEPT !.proof = Append(@, 1)]}
    [] k = "txin" -> {[d EXCEPT !.stack = Rep(97, 1650)], [d EXCEPT !.stack = Rep(97, 1651)], [d EXCEPT !.stack = Rep(97, 1000), !.redeem = Rep(97, 651)]}
    [] OTHER -> {}
Special ==
  CASE k = "tx" -> {[d EXCEPT !.flag = Opt(f)] : f \in {<<0, 0>>, <<0, 2>>, <<1, 1>>, <<1, 0>>, <<0>>, <<0, 1, 0>>}} \cup {[d EXCEPT !.wits = <<>>, !.flag = None]}
    [] k = "sprout" -> {[d EXCEPT !.version = <<v, 0, 0, 0>>] : v \in {0, 1, 3}} \cup {[d EXCEPT !.version = <<2, 0, 0, 128>>], [d EXCEPT !.version = <<2, 1, 0, 0>>],
                        [d EXCEPT !.js = <<SJS(1), SJS(2), SJS(3), SJS(4), SJS(5)>>], [d EXCEPT !.js = <<SJS(1), SJS(2), SJS(3), SJS(4), SJS(5), SJS(6)>>],
                        [d EXCEPT !.js = <<>>, !.pub = None, !.sig = None], [d EXCEPT !.ins = <<>>, !.outs = <<>>]}
    [] k \in {"overwinter", "sapling"} -> {[d EXCEPT !.expiry = e] : e \in {<<0, 0, 0, 0>>, <<255, 100, 205, 29>>, <<0, 101, 205, 29>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>}}
                        \cup {[d EXCEPT !.js = <<>>, !.pub = None, !.sig = None], [d EXCEPT !.ins = <<>>, !.outs = <<>>]}
                        \cup (IF k = "sapling" THEN {[d EXCEPT !.spends = <<>>, !.souts = <<>>], [d EXCEPT !.spends = <<>>, !.souts = <<>>, !.vb = Zeros(8)],
                                                     [d EXCEPT !.spends = <<>>, !.souts = <<>>, !.vb = Zeros(8), !.bsig = None]} ELSE {})
    [] OTHER -> {}
Edits == ByteEdits \cup OptEdits \cup VecEdits \cup InnerEdits \cup Special
Next == /\ n < (IF Deep THEN 2 ELSE 1) /\ net = HomeOf(k) /\ n' = n + 1 /\ d' \in Edits \ {d} /\ UNCHANGED <<k, net>>
Spec == Init /\ [][Next]_vars
View == <<k, net, d>>

V == Verdict(Faults(net, k, d))
\* the two samples themselves, and nothing on a network without the kind
Start == n = 0 => V = IF net \in NetsOf(k) THEN "yes" ELSE "no"
\* a parser yields nothing that could not be built, and reads back whatever can be
ParserAgrees == k \in Parsers /\ net \in NetsOf(k) /\ n < 2 =>
  LET p == Parse(net, k, Ser(k, d)) IN p.st = "yes" => Verdict(Faults(net, k, p.d)) # "no" /\ Shown(k, p.d) = p.d
ReadsBack == k \in TxKinds \ {"decred"} /\ V = "yes" /\ ~(k = "tx" /\ d.flag # None /\ d.wits = <<>>) =>
  LET p == Parse(net, k, Ser(k, d)) IN p.st # "no" /\ Ser(k, p.d) = Ser(k, d)
\* what cannot be built does not become buildable by dropping what is not shown
ShownValid == V = "yes" => Verdict(Faults(net, k, Shown(k, d))) = "yes" /\ Ser(k, Shown(k, d)) = Ser(k, d)
Forms == <<"bytes", "bytearray", "bytedata">>
EmitAll == Session(<<Reset, Use(net), Act("mk", [k |-> k, d |-> d, form |-> Forms[1 + (Len(Ser(k, d)) % 3)], wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>])>>
                   \o (IF k \in Parsers /\ n < 2 THEN <<Act("parse", [k |-> k, b |-> Ser(k, d), form |-> "bytes"])>> ELSE <<>>))
=============================================================================
