------------------------------ MODULE MCStandard ------------------------------
(* Small-scope model of relay rules: output scripts grow opcode by opcode, transactions
   output by output, and a node says of each whether it would pass it on.              *)
EXTENDS Samples, Api, Emit
VARIABLES x
vars == <<x>>
K == IOEnv.MC_KIND     \* script | tx | final | small
Key(h, n) == <<h>> \o Pat(h, 3, n - 1)
Toks == <<Push(Key(2, 33)), Push(Key(4, 65)), Push(Key(5, 33)), Push(Key(3, 32)), <<81>>, <<82>>, <<83>>, <<84>>, <<0>>, <<172>>, <<174>>, <<106>>,
          <<118, 169>> \o Push(Pat(1, 1, 20)), <<136, 172>>, <<169>> \o Push(Pat(2, 2, 20)), <<135>>, Push(<<7>>), <<76, 1, 9>>, <<97>>, <<173>>, <<80>>, <<96>>>>
Std1 == <<118, 169>> \o Push(Pat(1, 1, 20)) \o <<136, 172>>
StdS == {Std1, <<169>> \o Push(Pat(2, 2, 20)) \o <<135>>, <<0>> \o Push(Pat(3, 3, 20)), <<0>> \o Push(Pat(3, 3, 32)), Push(Key(2, 33)) \o <<172>>,
         <<81>> \o Push(Key(3, 33)) \o Push(Key(4, 65)) \o <<82, 174>>}
Car(n) == <<106>> \o Push(Pat(5, 5, n))
O(v, s) == [value |-> v, script |-> s]
V(n) == PadTo(Mag(n), 8)
In0 == [op |-> Pat(1, 1, 36), stack |-> <<>>, redeem |-> <<>>, seq |-> <<255, 255, 255, 255>>]
Tx(ver, is, os) == [version |-> ver, flag |-> None, ins |-> is, outs |-> os, wits |-> <<>>, lock |-> Zeros(4)]
Relayable == Tx(<<1, 0, 0, 0>>, <<In0>>, <<O(V(1000), Std1)>>)
Nets == {"bitcoin_main"}

\* ---- scripts
ScriptTx(s) == [Relayable EXCEPT !.outs = <<O(V(1000), s)>>]
GrowScript == \E i \in 1..Len(Toks) : x' = Append(x, i)
ScriptOfX == CatMap(LAMBDA i : Toks[i], x)
\* bare multisig: threshold, keys, count; every combination
Multi == {<<m>> \o ks \o <<n, 11>> : m \in {5, 6, 7, 8, 9}, n \in {5, 6, 7, 8, 9}, ks \in {<<>>, <<1>>, <<1, 2>>, <<2, 2, 1>>, <<1, 1, 1, 1>>, <<3, 1>>, <<1, 4>>, <<1, 17>>, <<1, 5>>}}
\* ---- transactions
Vers == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<2, 0, 0, 0>>, <<3, 0, 0, 0>>, <<1, 1, 0, 0>>, <<2, 0, 0, 128>>}
PoolIns == {[In0 EXCEPT !.stack = <<1, 9, 0>>], [In0 EXCEPT !.stack = <<0>>, !.redeem = <<1, 7>>], [In0 EXCEPT !.stack = <<97>>], [In0 EXCEPT !.stack = <<0>>, !.redeem = <<172>>],
            [In0 EXCEPT !.stack = <<2, 7>>], [In0 EXCEPT !.stack = <<96>>]}
PoolOuts == {O(V(v), s) : v \in {549, 550, 0}, s \in {Std1, <<81>> \o Push(Key(3, 33)) \o <<81, 174>>}}
            \cup {O(V(0), Car(20)), O(V(0), Car(1)), O(V(0), Car(79)), O(V(600), Car(4)), O(V(0), <<106, 97>>), O(V(1000), <<81>>), O(V(0), <<106>> \o Rep(0, 79)), O(V(0), <<106>> \o Rep(0, 83))}
GrowTx == \/ \E v \in Vers : x.version = <<1, 0, 0, 0>> /\ x' = [x EXCEPT !.version = v]
          \/ \E i \in PoolIns : Len(x.ins) < 2 /\ x' = [x EXCEPT !.ins = Append(@, i)]
          \/ \E o \in PoolOuts : Len(x.outs) < (IF Deep THEN 4 ELSE 3) /\ x' = [x EXCEPT !.outs = Append(@, o)]
\* ---- final
Edges == {<<>>, <<1>>, <<255, 100, 205, 29>>, <<0, 101, 205, 29>>, <<1, 101, 205, 29>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, Rep(255, 4)}
       \cup (IF Deep THEN {<<2>>, <<0, 1>>, <<254, 100, 205, 29>>, <<2, 101, 205, 29>>, <<0, 102, 205, 29>>} ELSE {})
FinalOf == [Relayable EXCEPT !.lock = PadTo(x.lock, 4)]
\* ---- small
SmallOf == [Relayable EXCEPT !.outs = <<O(V(1000), Rep(81, x))>>]

Init == CASE K = "script" -> x \in {<<>>} \cup Multi
          [] K = "tx" -> x = Relayable
          [] K = "final" -> x \in [lock : Edges, h : Edges, t : Edges]
          [] OTHER -> x \in 0..60
MaxToks == IF Deep THEN 4 ELSE 2
CanGrow == IF Len(x) < 2 THEN TRUE ELSE IF Len(x) = 2 THEN MaxToks > 2 ELSE IF x \in Multi THEN Len(x) < MaxToks
           ELSE Len(x) < MaxToks /\ x[1] \in {1, 5, 12} /\ x[2] < 13 /\ x[3] < 13
Next == CASE K = "script" -> CanGrow /\ GrowScript
          [] K = "tx" -> Len(x.ins) + Len(x.outs) + (IF x.version = <<1, 0, 0, 0>> THEN 0 ELSE 1) < (IF Deep THEN 5 ELSE 4) /\ GrowTx
          [] OTHER -> FALSE /\ x' = x
Spec == Init /\ [][Next]_vars

N1 == "bitcoin_main"
\* money left to be judged by: nothing below the dust limit passes, a data carrier aside
DustRule == K = "script" => OutVerdict(N1, O(V(549), ScriptOfX)) = "no" \/ IsCarrierLike(O(V(0), ScriptOfX))
\* an output's script alone decides, whatever the value above the dust limit
ValueBlind == K = "script" => IsCarrierLike(O(V(0), ScriptOfX)) \/ OutVerdict(N1, O(V(550), ScriptOfX)) = OutVerdict(N1, O(Rep(255, 8), ScriptOfX))
\* order does not matter; adding outputs never turns a transaction relayable
OrderBlind == K = "tx" => /\ TxVerdict(N1, [x EXCEPT !.outs = Rev(@)]) = TxVerdict(N1, x)
                          /\ TxVerdict(N1, [x EXCEPT !.ins = Rev(@)]) = TxVerdict(N1, x)
OnlyWorse == [][K = "tx" /\ TxVerdict(N1, x) = "no" /\ x.version = x'.version => TxVerdict(N1, x') = "no"]_vars
OutsPart == K = "tx" => (OutsVerdict(N1, x) = "no" => TxVerdict(N1, x) = "no")
\* waiting never makes a transaction less final
Waiting == K = "final" => (Final(FinalOf, x.h, x.t) => \A e \in Edges : (MagLeq(x.h, e) => Final(FinalOf, e, x.t)) /\ (MagLeq(x.t, e) => Final(FinalOf, x.h, e)))
SizeLaw == K = "small" => (SizeSmall(SmallOf) <=> Len(SerTx(SmallOf)) >= 82)
Std(f, d, src) == Act("std", [f |-> f, d |-> d, src |-> src, height |-> Int0, time |-> Int0])
EmitAll == Session(<<Reset, Use(N1)>> \o
  CASE K = "script" -> <<Std("outs", ScriptTx(ScriptOfX), IF Len(x) % 2 = 0 THEN "mk" ELSE "parse"), Act("std", [f |-> "push_only", b |-> ScriptOfX])>>
                       \o (IF Len(x) > 2 THEN <<>> ELSE <<Std("tx", [Relayable EXCEPT !.ins[1].stack = ScriptOfX], "mk")>>)
    [] K = "tx" -> <<Std("tx", x, IF Len(x.outs) % 2 = 0 THEN "mk" ELSE "parse"), Std("outs", x, "mk")>>
    [] K = "final" -> <<Act("std", [f |-> "final", d |-> FinalOf, src |-> "mk", height |-> SPos(x.h), time |-> SPos(x.t)])>>
    [] OTHER -> <<Std("small", SmallOf, "mk"), Std("small", [SmallOf EXCEPT !.flag = Opt(SegwitFlag), !.wits = <<<<Pat(1, 1, 9)>>>>], "parse")>>)
=============================================================================
