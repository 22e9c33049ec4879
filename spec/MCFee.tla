-------------------------------- MODULE MCFee --------------------------------
(* Small-scope model of money: values move between the transparent inputs, the shielded
   pools and the outputs of one transaction; the fee is what leaves the balance.       *)
EXTENDS Samples, Api, Emit
VARIABLES k, d, ins, step
vars == <<k, d, ins, step>>
E8(n) == PadTo(Mag(n), 8)
Amounts == {Zeros(8), E8(1), E8(256), Rep(255, 8)} \cup (IF Deep THEN {Zeros(7) \o <<128>>, E8(255), <<0, 0, 0, 0, 1, 0, 0, 0>>} ELSE {})
Vbs == {Zeros(8), E8(1), Rep(255, 8), Zeros(7) \o <<128>>, Rep(255, 7) \o <<127>>}
Given == {Int0, SPos(<<1>>), SPos(<<0, 1>>), SPos(Rep(255, 8)), SPos(Zeros(8) \o <<1>>)}
Base(x) == CASE x = "tx" -> [Sample("tx", 1) EXCEPT !.ins = <<SIn(1)>>, !.outs = <<SOut(1)>>, !.flag = None, !.wits = <<>>]
             [] x = "decred" -> [Sample("decred", 1) EXCEPT !.ins = <<SDIn(1)>>, !.wits = <<SDWit(1)>>]
             [] x = "sapling" -> [Sample("sapling", 1) EXCEPT !.js = <<>>]
             [] OTHER -> Sample(x, 1)
Init == k \in {"tx", "decred", "sprout", "overwinter", "sapling"} /\ d = Base(k) /\ ins = <<>> /\ step = 0
Pay ==  \/ \E v \in Amounts : d' = [d EXCEPT !.outs = <<[@[1] EXCEPT !.value = v]>> \o Drop(@, 1)]
        \/ \E v \in Amounts : Len(d.outs) < 3 /\ d' = [d EXCEPT !.outs = Append(@, [@[1] EXCEPT !.value = v])]
\* a joinsplit moves value one way only
Js == /\ k \in {"sprout", "overwinter"} \/ (k = "sapling" /\ step = 0)
      /\ \E v \in Amounts : \E old \in BOOLEAN :
           LET b0 == IF k = "sapling" THEN GJS(3) ELSE SJS(3) j == [b0 EXCEPT !.vold = IF old THEN v ELSE Zeros(8), !.vnew = IF old THEN Zeros(8) ELSE v] IN
           /\ Len(d.js) < 2 /\ d' = [d EXCEPT !.js = Append(@, j)]
Vb == k = "sapling" /\ \E v \in Vbs : d' = [d EXCEPT !.vb = v]
Give == \E v \in Given : Len(ins) < 2 /\ k # "decred" /\ ins' = Append(ins, v)
Wit == k = "decred" /\ \E v \in Amounts : Len(d.wits) < 3
         /\ d' = [d EXCEPT !.wits = Append(@, [@[1] EXCEPT !.value = v]), !.ins = Append(@, SDIn(4 + Len(d.ins)))]
Next == step < (IF Deep THEN 3 ELSE 2) /\ step' = step + 1 /\ k' = k /\ ((UNCHANGED ins /\ (Pay \/ Js \/ Vb \/ Wit)) \/ (Give /\ UNCHANGED d))
Spec == Init /\ [][Next]_vars
F(x, i) == Fee(k, x, i)
\* conservation: what is added to one side shows in the fee, whole and once
Conserves == [][
  /\ (ins' # ins => F(d', ins') = SAdd(F(d, ins), ins'[Len(ins')]))
  /\ (d'.outs # d.outs /\ Len(d'.outs) > Len(d.outs) => F(d', ins') = SSub(F(d, ins), SPos(d'.outs[Len(d'.outs)].value)))
  /\ (k = "decred" /\ d'.wits # d.wits => F(d', ins') = SAdd(F(d, ins), SPos(d'.wits[Len(d'.wits)].value)))
  /\ (k \in {"sprout", "overwinter", "sapling"} /\ d'.js # d.js => LET j == d'.js[Len(d'.js)] IN
        F(d', ins') = SAdd(F(d, ins), SSub(SPos(j.vnew), SPos(j.vold))))
  /\ (k = "sapling" /\ d'.vb # d.vb => F(d', ins') = SAdd(F(d, ins), SSub(TwosToS(d'.vb), TwosToS(d.vb))))]_vars
Order == step > 0 /\ Len(ins) = 2 => F(d, ins) = F(d, Rev(ins))
Valid == Verdict(Faults(HomeOf(k), k, d)) # "no"
EmitAll == step > 0 /\ Valid => Session(<<Reset, Use(HomeOf(k)), Act("fee", [k |-> k, d |-> d, src |-> IF k \in Parsers /\ (Len(ins) + step) % 2 = 0 THEN "parse" ELSE "mk", ins |-> ins])>>)
=============================================================================
