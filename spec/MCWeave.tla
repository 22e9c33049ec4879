------------------------------ MODULE MCWeave ------------------------------
(* Small-scope model of two clients of one library: each runs a program of its own
   (hashers, byte containers, objects, single requests), and their steps interleave in
   every way.  What a client holds depends on its own program alone.                   *)
EXTENDS Samples, Api, Emit
VARIABLES net, progs, pc, heap, order
vars == <<net, progs, pc, heap, order>>
Mode == EnvOr("MC_KIND", "turns")     \* turns: programs of several steps; calls: single requests that overlap
Pt(n, o) == Tup([i \in 1..n |-> (91 * (i + o) + 7 * o) % 256])
S1(op, a) == [op |-> op, a |-> a]
\* ---- programs of several steps
HashProg(size, salt, ns, how) ==
  <<S1("bl_new", [h |-> 1, size |-> size, salt |-> salt])>>
  \o Tup([i \in 1..Len(ns) |-> S1("bl_update", [h |-> 1, b |-> Pt(ns[i], i + ns[i]), text |-> FALSE, form |-> IF i % 2 = 0 THEN "bytearray" ELSE "bytes"])])
  \o <<S1("bl_final", [h |-> 1, how |-> how, b |-> <<>>, text |-> FALSE, form |-> "bytes"])>>
BoxProg(b, x, f) ==
  <<S1("bx_new", [h |-> 1, how |-> "bytes", b |-> b, form |-> f]), S1("bx_append", [h |-> 1, b |-> x, form |-> f]),
    S1("bx_find", [h |-> 1, b |-> x, form |-> "bytes"]),
    S1("bx_obs", [h |-> 1, slices |-> <<[lo |-> 0, hi |-> Len(b) + Len(x), st |-> 1], [lo |-> 1, hi |-> 4, st |-> 1]>>])>>
Box2Prog(b, x) ==
  <<S1("bx_new", [h |-> 1, how |-> "empty", b |-> <<>>, form |-> "bytes"]), S1("bx_new", [h |-> 2, how |-> "bytes", b |-> b, form |-> "bytearray"]),
    S1("bx_append", [h |-> 1, b |-> x, form |-> "bytes"]), S1("bx_append", [h |-> 1, h2 |-> 2, form |-> "handle"])>>
Stepped == <<HashProg(256, <<>>, <<20, 50>>, "final"), HashProg(256, <<>>, <<64, 3>>, "digest"), HashProg(256, <<Pt(16, 3)>>, <<55, 9>>, "hex"),
             HashProg(224, <<>>, <<70>>, "final"), HashProg(512, <<>>, <<100, 40>>, "digest"), HashProg(384, <<Pt(32, 4)>>, <<128, 1>>, "final"),
             BoxProg(<<1, 2, 3>>, <<3, 4>>, "bytes"), BoxProg(<<>>, <<9>>, "bytearray"), Box2Prog(<<5, 6>>, <<7>>), BoxProg(Pt(40, 1), Pt(5, 2), "bytearray")>>
\* ---- single requests, each in two shapes
Home2 == <<"bitcoin_main", "bitcoin_cash_main", "zcash_sprout_main", "zcash_overwinter_main", "zcash_sapling_main", "decred_main">>
KindsOn(n) == CASE n = "zcash_sprout_main" -> <<"sproof", "sjs", "sprout">> [] n = "zcash_overwinter_main" -> <<"sjs", "overwinter">>
                [] n = "zcash_sapling_main" -> <<"gproof", "gjs", "gspend", "goutput", "sapling">>
                [] n = "decred_main" -> <<"doutpoint", "dtxin", "dtxout", "dwitness", "decred">>
                [] n = "bitcoin_cash_main" -> <<"tx">>
                [] OTHER -> <<"outpoint", "txin", "txout", "witem", "witness", "tx">>
Plain == <<"outpoint", "txin", "txout">>
Fb(i) == <<"bytes", "bytearray", "bytedata">>[1 + (i % 3)]
OfKind(k, i) == <<S1("mk", [k |-> k, d |-> Sample(k, i), form |-> Fb(i), wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>])>>
  \o (IF k \in Parsers THEN <<S1("parse", [k |-> k, b |-> Ser(k, Sample(k, i)), form |-> Fb(i + 1)]),
                              S1("parse", [k |-> k, b |-> Take(Ser(k, Sample(k, i)), Len(Ser(k, Sample(k, i))) - 1), form |-> "bytes"])>> ELSE <<>>)
  \o (IF k \in Copiers THEN <<S1("copy", [k |-> k, d |-> Sample(k, i), src |-> "mk", fields |-> <<>>, d2 |-> Sample(k, 3 - i), form |-> "bytes"])>> ELSE <<>>)
Req(k, i, b) == [idx |-> 0, base |-> b, acp |-> i = 2, script |-> IF k = "decred" THEN <<80 + i>> ELSE <<1, 80 + i>>, value |-> Opt(<<i, 0, 0, 0, 0, 0, 0, 0>>), js |-> FALSE, via |-> "wrap"]
Signing(k, i) == IF k \notin TxKinds THEN <<>> ELSE
  Tup([j \in 1..2 |-> S1("sig", [k |-> k, d |-> Sample(k, i), src |-> "mk", reqs |-> <<Req(k, i, <<"all", "single">>[j])>>])])
OpSha256 == <<79, 80, 95, 83, 72, 65, 50, 53, 54>>
OpDup == <<79, 80, 95, 68, 85, 80>>
H(f, b) == S1("hash", [f |-> f, b |-> b, size |-> <<>>, person |-> <<>>])
TextOn(n, kind, b) == LET x == AddrOf(n, kind, b, TRUE) IN IF x.ok THEN x.v ELSE <<49>>
Big(i) == [neg |-> FALSE, mag |-> <<i, i, i>>]
Common(n, i) ==
  LET p == Pt(20, i) q == Pt(32, i) key == <<2>> \o q toks == <<ToHexText(Take(p, 3 + i)), OpSha256, OpDup>> IN
  <<H("hash160", Pt(30 + i, i)), H("hash256", Pt(70 * i, i)), H("blake256", Pt(60 * i, i)), H("sha256", Pt(10 * i, i)), H("rmd160", Pt(9 * i, i)),
    S1("hash", [f |-> "blake2b", b |-> Pt(9, i), size |-> <<10 * i>>, person |-> <<Pt(4, i)>>]),
    S1("hash", [f |-> "blake", b |-> Pt(40, i), size |-> <<IF i = 1 THEN 256 ELSE 512>>, person |-> <<>>]),
    S1("b58", [f |-> "enc", b |-> Pt(21, i), dflt |-> TRUE, check |-> TRUE]),
    S1("b58", [f |-> "dec", t |-> B58CheckEnc(n, Pt(20 + i, i)), dflt |-> TRUE, check |-> TRUE]),
    S1("b58", [f |-> "dec", t |-> B58Enc(Pt(20 + i, i)), dflt |-> FALSE, check |-> FALSE]),
    S1("b58", [f |-> "dec", t |-> B58CheckEnc(n, Pt(21, i)) \o <<50>>, dflt |-> TRUE, check |-> TRUE]),
    S1("bech32", [f |-> "enc", b |-> <<0, IF i = 1 THEN 20 ELSE 32>> \o (IF i = 1 THEN p ELSE q)]),
    S1("bech32", [f |-> "dec", t |-> TextOn(n, IF i = 1 THEN "wpkh" ELSE "wsh", IF i = 1 THEN p ELSE q)]),
    S1("bech32", [f |-> "dec", t |-> TextOn(n, "wpkh", p) \o <<113>>]),
    S1("cash", [f |-> "enc", b |-> <<8 * (i - 1)>> \o p]),
    S1("cash", [f |-> "dec", t |-> TextOn(n, "sh", p)]),
    S1("ser", [toks |-> toks, hex |-> FALSE]), S1("ser", [toks |-> Append(toks, <<79, 80, 95, 88>>), hex |-> TRUE]),
    S1("deser", [b |-> <<2, p[1], p[2], 118, 135>>, hex |-> FALSE]), S1("deser", [b |-> <<118, 5, p[1]>>, hex |-> FALSE]),
    S1("vi_enc", [v |-> Big(i)]), S1("vi_dec", [b |-> <<253, 100 * i, i>>, form |-> "bytes"]), S1("vi_dec", [b |-> <<254, 1, i>>, form |-> "bytes"]),
    S1("addr", [f |-> "from_script", b |-> ScriptOf("pkh", p), dflt |-> TRUE, cash |-> TRUE]),
    S1("addr", [f |-> "from_script", b |-> ScriptOf("wsh", q), dflt |-> FALSE, cash |-> FALSE]),
    S1("addr", [f |-> "to_script", t |-> TextOn(n, "sh", p)]), S1("addr", [f |-> "parse_hash", t |-> TextOn(n, "pkh", p)]),
    S1("addr", [f |-> "to_script", t |-> TextOn(n, "wpkh", p)]),
    S1("addr", [f |-> "p2sh", toks |-> toks]), S1("addr", [f |-> "legacy_p2sh", toks |-> toks]), S1("addr", [f |-> "legacy_p2pkh", pub |-> key]),
    S1("addr", [f |-> "sh", toks |-> toks, wit |-> i = 1, cash |-> i = 2]), S1("addr", [f |-> "pkh", pub |-> key, wit |-> i = 2, cash |-> i = 1]),
    S1("tb", [f |-> "sh_script_pubkey", script |-> Pt(9, i), wit |-> i = 2]), S1("tb", [f |-> "p2wpkh_output_script", pub |-> key]), S1("tb", [f |-> "p2sh_output_script", toks |-> toks]), S1("addr", [f |-> "p2wsh", toks |-> toks]), S1("addr", [f |-> "p2wpkh", pub |-> key]), S1("addr", [f |-> "p2pkh", pub |-> key]),
    S1("tb", [f |-> "pkh_output", value |-> SPos(<<i, 1>>), pub |-> key, wit |-> FALSE]),
    S1("tb", [f |-> "sh_output", value |-> SPos(<<i, 2>>), toks |-> toks, wit |-> TRUE]),
    S1("tb", [f |-> "outpoint", txid |-> q, index |-> SPos(<<i>>), tree |-> <<>>])>>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Drop(ss, 1))
\* requests that are refused: a malformed twin of each kind of request
BadToks == <<<<97, 98>>, OpDup, <<79, 80, 95, 90>>>>
BadLate == <<OpDup, <<97, 98, 99, 100>>, <<103, 103>>>>
Refused(n) ==
  LET q == Pt(32, 3) tks(i) == IF i = 1 THEN BadToks ELSE BadLate IN
  Flatten(Tup([i \in 1..2 |->
    <<S1("ser", [toks |-> tks(i), hex |-> i = 1]), S1("deser", [b |-> IF i = 1 THEN <<118, 76>> ELSE <<1, 2, 186, 255>>, hex |-> i = 2])>>
    \o Tup([j \in 1..3 |-> S1("addr", [f |-> <<"p2sh", "legacy_p2sh", "p2wsh">>[j], toks |-> tks(i)])])
    \o Tup([j \in 1..4 |-> S1("addr", [f |-> "sh", toks |-> tks(i), wit |-> j > 2, cash |-> j % 2 = 0])])
    \o Tup([j \in 1..3 |-> S1("addr", [f |-> <<"p2pkh", "legacy_p2pkh", "p2wpkh">>[j], pub |-> Take(q, 31 + i)])])
    \o <<S1("addr", [f |-> "from_script", b |-> <<118, 169, 20, i>>, dflt |-> i = 1, cash |-> FALSE]),
         S1("addr", [f |-> "to_script", t |-> TextOn(n, "pkh", Pt(20, 1)) \o <<49>>]), S1("addr", [f |-> "parse_hash", t |-> Drop(TextOn(n, "sh", Pt(20, 1)), i)]),
         S1("tb", [f |-> "sh_output", value |-> SPos(<<i>>), toks |-> tks(i), wit |-> FALSE]), S1("tb", [f |-> "sh_output", value |-> SPos(<<i>>), toks |-> tks(i), wit |-> TRUE]),
         S1("tb", [f |-> "pkh_output", value |-> SPos(<<i>>), pub |-> q, wit |-> i = 1]),
         S1("tb", [f |-> "outpoint", txid |-> Take(q, 31), index |-> SPos(<<i>>), tree |-> <<>>]),
         S1("b58", [f |-> "dec", t |-> <<49, 48>>, dflt |-> TRUE, check |-> TRUE]), S1("b58", [f |-> "dec", t |-> <<49, 50, 51, 52, 53, 54>>, dflt |-> i = 1, check |-> i = 1]),
         S1("bech32", [f |-> "enc", b |-> <<0, 21>> \o Pt(21, 1)]), S1("bech32", [f |-> "dec", t |-> <<98, 99, 49, 113>>]),
         S1("cash", [f |-> "dec", t |-> <<98, 58, 113>>]), S1("vi_dec", [b |-> <<255, 1, i>>, form |-> "bytes"]),
         S1("vi_enc", [v |-> [neg |-> FALSE, mag |-> <<0, 0, 0, 0, 0, 0, 0, 0, i>>]])>>]))
  \o LET ks == KindsOn(n) IN Flatten(Tup([j \in 1..Len(ks) |->
       <<S1("mk", [k |-> ks[j], d |-> Sample(ks[j], 1), form |-> "bytes", wrong |-> <<<<Last(SetToSeq(DOMAIN Sample(ks[j], 1))), "int">>>>, swap |-> <<>>, vswap |-> <<>>])>>
       \o (IF ks[j] \in Parsers THEN <<S1("parse", [k |-> ks[j], b |-> Take(Ser(ks[j], Sample(ks[j], 1)), Len(Ser(ks[j], Sample(ks[j], 1))) - 2), form |-> "bytearray"]),
                                        S1("parse", [k |-> ks[j], b |-> <<1, 0, 0, 0, 0>>, form |-> "bytes"])>> ELSE <<>>)]))
PerKind(n, i) == LET ks == KindsOn(n) IN Flatten(Tup([j \in 1..Len(ks) |-> OfKind(ks[j], i) \o Signing(ks[j], i)]))
\* the same requests in two shapes: request j of the first list and request j of the second differ in their arguments only
ShapeA(n) == Common(n, 1) \o PerKind(n, 1)
ShapeB(n) == Common(n, 2) \o PerKind(n, 2)
AllA == [n \in SetOf(Home2) |-> ShapeA(n)]
AllB == [n \in SetOf(Home2) |-> ShapeB(n)]
AllR == [n \in SetOf(Home2) |-> Refused(n)]
ASSUME \A n \in SetOf(Home2) : LET a == AllA[n] b == AllB[n] IN Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j].op = b[j].op

\* ---- clients
Client(p, s) == [s EXCEPT !.a = [f \in DOMAIN s.a |-> IF f \in {"h", "h2"} THEN s.a[f] + 10 * p ELSE s.a[f]]]
Dummy == [b |-> <<>>, i |-> 0, eq |-> FALSE, ne |-> FALSE, over |-> FALSE, bytes |-> <<>>, conv |-> <<>>, len |-> 0, iter |-> <<>>, hex |-> <<>>, fmt |-> <<>>,
          fmtx |-> <<>>, idx |-> <<>>, slices |-> <<<<>>, <<>>>>]
Do(h, s) == IF s.op \in {"bl_new", "bl_update", "bl_final", "bx_new", "bx_append"}
            THEN Step1(net, h, [op |-> s.op, a |-> s.a, st |-> "ok", r |-> Dummy, n |-> net]).heap ELSE h
RECURSIVE RunAlone(_, _, _, _)
RunAlone(h, p, prog, n) == IF n = 0 THEN h ELSE Do(RunAlone(h, p, prog, n - 1), Client(p, prog[n]))

Init == /\ pc = <<0, 0>> /\ heap = <<>> /\ order = <<>>
        /\ IF Mode = "turns"
           THEN /\ net = "bitcoin_main"
                /\ \E x \in 1..Len(Stepped), y \in 1..Len(Stepped) :
                     /\ x # y \/ Deep
                     /\ (x <= 6) = (y <= 6)
                     /\ progs = <<Stepped[x], Stepped[y]>>
           ELSE IF Mode = "refused"
           THEN /\ net \in SetOf(Home2)
                /\ \E P \in {AllA[net]} : \E Q \in {AllB[net]} : \E Rs \in {AllR[net]} : \E x \in 1..Len(Rs) :
                     LET same == SelectSeq(P \o Q, LAMBDA y : y.op = Rs[x].op) n == Len(same) IN
                     progs = <<<<Rs[x]>>, Tup([j \in 1..Min2(n, 12) |-> same[1 + ((x + j) % n)]]) \o Tup([j \in 1..5 |-> Q[1 + ((11 * j + 7 * x) % Len(Q))]])>>
           ELSE /\ net \in SetOf(Home2)
                /\ \E A \in {AllA[net]} : \E B \in {AllB[net]} :
                   LET n == Len(A) IN \E x \in 1..n : \E o \in (IF Deep THEN {0, 1, 2, 3, 5, 11, 17, 23, 31} ELSE {0, 7}) :
                     LET y == IF o = 0 THEN x ELSE 1 + ((5 * x + o) % n) IN
                     \/ progs = <<<<A[x]>>, <<B[y]>>>>
                     \/ Deep /\ progs = <<<<B[x]>>, <<A[y]>>>>
Turn(p) == /\ pc[p] < Len(progs[p])
           /\ pc' = [pc EXCEPT ![p] = @ + 1]
           /\ heap' = Do(heap, Client(p, progs[p][pc[p] + 1]))
           /\ order' = Append(order, p - 1)
           /\ UNCHANGED <<net, progs>>
Next == Mode = "turns" /\ \E p \in 1..2 : Turn(p)
Spec == Init /\ [][Next]_vars

\* non-interference: what a client holds is what it would hold alone, however far the other got
Own(h, p) == [y \in {z \in DOMAIN h : z \div 10 = p} |-> h[y]]
Apart == \A p \in 1..2 : Own(heap, p) = RunAlone(<<>>, p, progs[p], pc[p])
\* the two orders of two steps of different clients lead to the same state
Diamond == (pc[1] < Len(progs[1]) /\ pc[2] < Len(progs[2])) =>
  LET a == Client(1, progs[1][pc[1] + 1]) b == Client(2, progs[2][pc[2] + 1]) IN Do(Do(heap, a), b) = Do(Do(heap, b), a)
W(mode, at) == Act("weave", [mode |-> mode, progs |-> progs, order |-> order, at |-> at, times |-> 2])
Both == pc = [p \in 1..2 |-> Len(progs[p])]
\* the interleavings that the recorder replays: of those with the same programs, the most alternating and a spread of the others
RECURSIVE Weigh(_, _)
Weigh(o, i) == IF i > Len(o) THEN 0 ELSE (i * i * o[i] + Weigh(o, i + 1)) % 1009
Chosen == Deep \/ Weigh(order, 1) % 5 = 0 \/ \A i \in 3..Len(order) : order[i] = order[i - 2]
Place(i) == ((Len(ToString(progs)) * 37) + i * 131) % 1000
EmitAll == IF Mode = "turns"
  THEN Both /\ Chosen => Session(<<Reset, Use(net), W("turns", 0)>>)
  ELSE IF Mode = "refused" THEN Session(<<Reset, Use(net), W("stop", IF Cardinality(DOMAIN progs[1][1].a) % 2 = 0 THEN 999 ELSE 500)>> \o Tup([j \in 1..Len(progs[2]) |-> <<progs[2][j].op, progs[2][j].a>>]))
  ELSE Session(<<Reset, Use(net), W("inside", Place(1)), W("stop", Place(2)), W("stop", 999), W("inside", Place(4))>> \o (IF Place(5) % 4 = 0 THEN <<W("threads", 0)>> ELSE <<>>))
=============================================================================
